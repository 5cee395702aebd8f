import re,os,random,subprocess,shutil,sys,time
from concurrent.futures import ThreadPoolExecutor
INC="/repo/include"
RULES=[(r' \+ ',' - '),(r' - ',' + '),(r' < ',' <= '),(r' <= ',' < '),(r' == ',' != '),(r' && ',' || '),(r'\|\|','&&'),(r'(?<=[{,(=] )- ?(?=\w)',''),(r'(?<=[{(=])-(?=\w)',''),
 (r'theData\[0\]','theData[1]'),(r'theData\[1\]','theData[2]'),(r'theData\[2\]','theData[0]'),(r'\b0\.(?!\d)','1.'),(r'\b1\.(?!\d)','2.'),(r'(?<!\d)\.5\b','.25'),(r'\b2\.(?!\d)','3.'),
 (r'\b0u\b','1u'),(r'\b1u\b','2u'),(r'\b2u\b','3u'),(r'\b3u\b','4u'),(r'\b4u\b','5u'),(r'\b6u\b','5u'),(r'\b7u\b','8u'),(r'\b8u\b','7u'),(r'\b15u\b','14u'),
 (r'theSca\b','theTri'),(r'theTri\b','theSca'),(r'theVec\b','theBiv'),(r'theBiv\b','theVec'),(r'std::cos','std::sin'),(r'std::sin\b','std::cos'),(r'\breverse\(','dirverse('),(r'\bdirverse\(','reverse('),(r'\btrue\b','false'),(r'\bfalse\b','true'),
 (r'epsilon\(\)','min()'),(r'\bmin\(\)','epsilon()'),(r'denorm_min','epsilon'),(r'" "','""'),(r'"  "','""'),(r'1\.e-150','1.e-3'),(r'std::abs\(([^()]*)\)',r'(\1)'),(r'\bA\b','B'),(r'!','' ),(r'std::log\b','std::log10'),(r'std::sqrt','std::abs'),(r'\*','+'),(r'std::scientific','std::fixed'),(r'std::fixed','std::scientific'),(r'turnHalf','turnQtr'),(r'\bsca([AB])\b',lambda m:'sca'+('B' if m[1]=='A' else 'A')),(r'\bb1\b','b2'),(r'argA','argB'),(r'dataGot','dataRef'),(r'dataRef','dataGot'),(r'testVal','refVal'),(r'mvA','mvB'),(r'cplxA','cplxB'),(r'bivA','bivB'),(r'quiet_NaN','infinity')]
def muts(f):
    L=open(f"{INC}/{f}").read().split("\n")
    com=False; out=[]
    for i,l in enumerate(L):
        s=l.strip()
        if '/*' in s: com=True
        if com:
            if '*/' in s: com=False
            continue
        if s.startswith('//') or s.startswith('#') or not s or s.startswith('template') or s.startswith('<') or s.startswith('>') and False: continue
        code=l.split('//')[0]
        for a,b in RULES:
            for m in re.finditer(a,code):
                n=code[:m.start()]+(b(m) if callable(b) else m.expand(b))+code[m.end():]
                if n!=code: out.append((f,i,l,n))
    return out
def main():
    seed=int(sys.argv[1]); per=int(sys.argv[2]); pat=sys.argv[3] if len(sys.argv)>3 else '.'
    rnd=random.Random(seed); todo=[]
    for f in sorted(os.listdir(INC)):
        if f.endswith('.hpp') and re.search(pat,f):
            m=muts(f); rnd.shuffle(m); k=per*(3 if f in('g3func.hpp','g3io.hpp','g3compare.hpp','g3type.hpp') else 1)
            todo+=m[:k]
    rnd.shuffle(todo)
    print(len(todo),flush=True)
    V="/tmp/mut/verif"; shutil.rmtree(V,ignore_errors=True)
    shutil.copytree("/verif",V,ignore=shutil.ignore_patterns('.git','seeded','__pycache__','evidence'))
    ORD={'g3opsAdd':'P03 P21','g3opsSub':'P04 P21','g3opsMul':'P01 P02','g3opsUni':'P05 P06','g3compare':'P16 P21','g3validity':'P14 P16 P15','g3io':'P18 P19 P20 P21','g3traits':'P23 P03','g3type':'P17 P21 P01 P14','g3const':'P02 P21 P12 P17','g3func':'P07 P08 P09 P10 P11 P12 P13','g3_private':'P01 P03 P07'}
    ALL=[f"P{k:02d}" for k in range(1,24)]
    def one(t):
        k,(f,i,l,n)=t
        d=f"/tmp/mut/w{k}"; shutil.copytree(INC,d+"/include")
        p=f"{d}/include/{f}"; L=open(p).read().split("\n"); L[i]=n; open(p,"w").write("\n".join(L))
        r=subprocess.run(["g++","-std=c++17","-fsyntax-only","-x","c++","-I",d+"/include","-"],input="#include <Engabra>\nint main(){engabra::g3::MultiVector m{1,2,3,4,5,6,7,8};m=m*m;}",capture_output=True,text=True)
        if r.returncode: shutil.rmtree(d); return
        key=next((v for q,v in ORD.items() if f.startswith(q)),'').split()
        order=key+[p for p in ALL if p not in key]
        res='SURVIVES'; bad=''
        for p in order:
            r=subprocess.run(["python3-vt","check.py",p,"--tier","quick"],cwd=V,capture_output=True,text=True,env={**os.environ,"VERIF_REPO":d,"VERIF_SEED":"1"})
            if r.returncode==1:
                res=f"killed by {p}"+(" noinput" if all('no-failing' in x for x in r.stdout.split('\n') if x.startswith('VIOL')) else ''); break
            if r.returncode!=0: bad+=f" {p}:rc{r.returncode}"
        print(res,bad,f"{f}:{i+1}: {l.strip()}  ==>  {n.strip()}",flush=True)
        shutil.rmtree(d)
    with ThreadPoolExecutor(6) as ex: list(ex.map(one,enumerate(todo)))
main()
