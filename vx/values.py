"""The contracts enter the library with constant objects as operands.  For every other kind of operand (objects that are not
constant, temporaries, integers and floats where a double is asked for) overload resolution has to choose the same functions, so
that the contract already discharged applies; where it chooses others, the contract is verified for those as well."""
import copy, re, subprocess, os
from . import api, harness
from .api import T

KINDS = ("nc", "rv", "r0", "r1", "int", "float", "long")
WHAT = {"nc": "objects that are not constant", "rv": "temporaries", "r0": "a temporary on the left", "r1": "a temporary on the right",
        "int": "an integer for a double", "float": "a float for a double", "long": "a long integer for a double"}
LD = re.compile(r"(\w[\w:<>,]*) const a(\d)\(vx::ld<([^()]*)>\(p(\d)\)\);")
RF = re.compile(r"auto const& a(\d) = vx::rf<([^,]+(?:<[^>]*>)?), (\d)>\(p(\d)\);")


def variant(w, kind, name):
    """the text of the wrapper with another kind of operand, or None"""
    t = api.emit(w)
    if "const a" not in t and "rf<" not in t:
        return None
    ref = "vx::rf<" in t
    if ref:
        if kind != "nc":
            return None
        v = RF.sub(lambda m: f"auto& a{m.group(1)} = const_cast<{m.group(2)}&>(vx::rf<{m.group(2)}, {m.group(3)}>(p{m.group(4)}));", t)
    elif kind == "nc":
        v = LD.sub(lambda m: f"{m.group(1)} a{m.group(2)}(vx::ld<{m.group(3)}>(p{m.group(4)}));", t)
    elif kind in ("rv", "r0", "r1"):
        v = LD.sub(lambda m: f"{m.group(1)} \x01{m.group(2)}(vx::ld<{m.group(3)}>(p{m.group(4)}));", t)
        use = re.findall(r"\ba(\d)\b", v)
        if not use or len(use) != len(set(use)) or kind != "rv" and len(use) != 2:
            return None
        pick = set(use) if kind == "rv" else {kind[1]}
        v = re.sub(r"\ba(\d)\b", lambda m: f"std::move(a{m.group(1)})" if m.group(1) in pick else f"std::as_const(a{m.group(1)})", v).replace("\x01", "a")
    else:
        v = LD.sub(lambda m: f"{kind} const a{m.group(2)}(static_cast<{kind}>(*p{m.group(4)}));" if m.group(1) == "double" and m.group(3) == "double" else m.group(0), t)
        if "theData" in v or "double& w" in v:
            return None
    if v == t:
        return None
    return re.sub(r"\b" + re.escape(w.name) + r"\(", name + "(", v, count=1)


CALL = re.compile(r"(?:call|invoke) [^@\n]*@(\"?[\w.$]+\"?)\(")
SKIP = re.compile(r"^(llvm\.|_ZN2vx|_ZNK2vx|_ZSt4move|_ZSt7forward|_ZSt8as_const|__clang_call_terminate)")


def calls(ll):
    """wrapper name -> the functions it calls, in order"""
    out = {}
    for m in re.finditer(r"^define [^@\n]*@(\w+)\([^\n]*\{\n(.*?)^\}", ll, re.S | re.M):
        out[m.group(1)] = [c for c in CALL.findall(m.group(2)) if not SKIP.match(c.strip('"'))]
    return out


def compare(cs, extra=""):
    """(contract, kind, text) of the operand kinds for which other functions are called; number compared"""
    lines = (api.PRELUDE + "#include <utility>\n" + extra).split("\n")
    line_of = {}
    todo = {}
    for c in cs:
        if c.w.name in todo:
            continue
        todo[c.w.name] = c
    ent = []
    seen = set()
    for c in todo.values():
        key = (tuple(c.w.params), re.sub(r"\b" + re.escape(c.w.name) + r"\b", "", api.emit(c.w)))
        for k in KINDS:
            if key in seen:
                break
            v = variant(c.w, k, f"{c.w.name}__{k}")
            if v:
                ent.append((c, k, v))
        seen.add(key)
    need = {c.w.name: c for c, k, v in ent}
    drop = set()
    h = harness.Harness([], extra_prelude=extra)
    src, out = os.path.join(h.dir, "v.cpp"), os.path.join(h.dir, "v.ll")
    try:
        for _ in range(8):
            ls = list(lines)
            where = {}
            for n, c in need.items():
                if n not in drop:
                    ls.append(api.emit(c.w))
                    where[len(ls)] = n
            for c, k, v in ent:
                n = f"{c.w.name}__{k}"
                if n not in drop and c.w.name not in drop:
                    ls.append(v)
                    where[len(ls)] = n
            open(src, "w").write("\n".join(ls) + "\n")
            r = subprocess.run([harness.CLANG] + harness.IRFLAGS + [src, "-o", out], capture_output=True, text=True)
            if r.returncode == 0:
                break
            bad = {where.get(int(m.group(1))) for m in re.finditer(re.escape(src) + r":(\d+):\d+: (?:fatal )?(?:error|note)", r.stderr)} - {None}
            if not bad:
                return [], 0, []
            drop |= bad
        else:
            return [], 0, []
        g = calls(open(out).read())
    finally:
        h.close()
    res = []
    n = 0
    for c, k, v in ent:
        nm = f"{c.w.name}__{k}"
        if c.w.name in drop or nm in drop or c.w.name not in g or nm not in g:
            continue
        if g[nm] == g[c.w.name]:
            n += 1
        else:
            res.append((c, k, v))
    return res, n, sorted(x for x in drop if "__" in x)


def contract(c, kind, text):
    """the same contract for that kind of operand"""
    d = copy.copy(c)
    d.name = f"{c.name}__{kind}"
    d.kname = c.name
    d.w = copy.copy(c.w)
    d.w.name = d.name
    d.w.text = text
    d.callee = False
    for a in ("n", "nw"):
        if hasattr(c, a):
            w = getattr(c, a)
            e = copy.copy(w)
            e.name = w.name.replace(c.name, d.name)
            t = api.emit(w).replace(w.name + "(", e.name + "(")
            if a == "nw":
                t = re.sub(r"\b" + re.escape(c.name) + r"\(", d.name + "(", t)
            else:
                t = variant(w, kind, e.name) or t
            e.text = t
            setattr(d, a, e)
    return d


def whole(c):
    """operands for the contract, whole numbers where a double is asked for"""
    import random
    from . import native

    def g(rnd):
        a = c.gen(rnd) if c.gen else native.gen(c.params, rnd)
        for i, t in enumerate(c.params):
            if t == "d":
                a[i] = [float(rnd.randint(-9, 9))]
        return a
    return g
