"""Assumed contracts of the standard library's strings and streams, as ghost state of the symbolic execution.

A stream or string is represented by the sequence of tokens written to it: literal text, padding, and numbers.  A number token
records the value inserted and the format in force (flags, precision, width), i.e. everything its text depends on; the characters
themselves are the business of the C++ library and are not modelled.  Extraction of a double from a stream supplied by the caller
yields an arbitrary success flag and an arbitrary number; extraction from a stream the code has written itself yields
'reread(value, flags, precision)' for the next number token.
"""
import collections, re
from . import dag
from .dag import mk, fn, NOT, AND
from .ir import Unsupported, DOUBLE, PTR
from .symex import Out, Ptr, NULL, Fn, Agg, same

Strm = collections.namedtuple("Strm", "toks flags prec width fill ext pos nread failed ever")
Str = collections.namedtuple("Str", "toks")
Num = collections.namedtuple("Num", "val flags prec width fill")
Lit = collections.namedtuple("Lit", "text")
Pad = collections.namedtuple("Pad", "fill")      # zero or more fill characters

BOOLALPHA, DEC, FIXED, HEX, INTERNAL, LEFT, OCT, RIGHT, SCI = 1, 2, 4, 8, 16, 32, 64, 128, 256
SHOWBASE, SHOWPOINT, SHOWPOS, SKIPWS, UNITBUF, UPPER = 512, 1024, 2048, 4096, 8192, 16384
FLOATFIELD, ADJUST, BASE = FIXED | SCI, LEFT | RIGHT | INTERNAL, DEC | OCT | HEX
I32 = lambda n: dag.iconst(32, n)
WS = " \t\n\v\f\r"

ABBR = [("std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> >", "string"),
        ("std::basic_ostream<char, std::char_traits<char> >", "ostream"),
        ("std::basic_istream<char, std::char_traits<char> >", "istream"),
        ("std::basic_iostream<char, std::char_traits<char> >", "iostream"),
        ("std::basic_ios<char, std::char_traits<char> >", "ios"),
        ("std::__cxx11::basic_ostringstream<char, std::char_traits<char>, std::allocator<char> >", "ostringstream"),
        ("std::__cxx11::basic_istringstream<char, std::char_traits<char>, std::allocator<char> >", "istringstream"),
        ("std::__cxx11::basic_stringstream<char, std::char_traits<char>, std::allocator<char> >", "stringstream")]


def norm(d):
    for a, b in ABBR:
        d = d.replace(a, b)
    d = d.replace("[abi:cxx11]", "")
    return d


# ------------------------------------------------------------------ ghost access
def new_stream(ex, st, al, toks=(), ext=False, failed=False, flags=SKIPWS | DEC, prec=None, width=None):
    st.ghost[(al, "io")] = Strm(tuple(toks), flags, prec or I32(6), width or I32(0), " ", ext, 0, 0, failed, failed)


def skey(p):
    if not isinstance(p, Ptr):
        raise Unsupported("stream through a conditional pointer")
    return (p.al, "io")


def strm(st, p):
    g = st.ghost.get(skey(p))
    if g is None:
        raise Unsupported("unknown stream object")
    return g


def setp(st, p, **k):
    z = st.size.get(p.al)
    if z and z[1] == "global":
        from .symex import STREAMS
        st.ev = st.ev + (("use of stream", STREAMS.get(z[2], z[2])),)
    st.ghost[skey(p)] = strm(st, p)._replace(**k)


def string(st, p):
    if not isinstance(p, Ptr):
        raise Unsupported("string through a conditional pointer")
    g = st.ghost.get((p.al, p.off))
    if not isinstance(g, Str):
        raise Unsupported("unknown string object")
    return g.toks


def setstr(st, p, toks):
    st.ghost[(p.al, p.off)] = Str(tuple(toks))


def join(a, b):
    a = list(a)
    for t in b:
        if isinstance(t, Lit):
            if not t.text:
                continue
            if a and isinstance(a[-1], Lit):
                a[-1] = Lit(a[-1].text + t.text)
                continue
        a.append(t)
    return tuple(a)


def cstr(ex, st, p):
    if not isinstance(p, Ptr) or p.al not in st.mem:
        raise Unsupported("text through an unknown pointer")
    for o, (s, v) in st.mem[p.al].items():
        if o <= p.off < o + s and isinstance(v, bytes):
            b = v[p.off - o:]
            if 0 in b:
                return b[:b.index(0)].decode("latin1")
    # written byte by byte
    out = ""
    for k in range(p.off, p.off + 4096):
        c = st.mem[p.al].get(k)
        if c is None or c[0] != 1:
            break
        v = ex.conv(c[1], dagty8())
        if not dag.isic(v):
            break
        if v.a[0] == 0:
            return out
        out += chr(v.a[0])
    raise Unsupported("text is not a constant")


def dagty8():
    from .ir import INT
    return INT(8)


def chr_of(n):
    if not dag.isic(n):
        raise Unsupported("character is not a constant")
    return chr(n.a[0] & 255)


# ------------------------------------------------------------------ writing
def put(st, p, toks, n=None):
    """append formatted text; a pending field width turns into padding and is consumed"""
    s = strm(st, p)
    if s.failed:
        return
    w = s.width
    if not (dag.isic(w) and w.a[0] == 0):
        k = dag.sgn(32, w.a[0]) if dag.isic(w) else None
        if n is not None and k is not None:
            pad = Lit(s.fill * max(0, k - n))
        else:
            pad = Pad(s.fill)
        toks = (tuple(toks) + (pad,)) if (s.flags & ADJUST) == LEFT else ((pad,) + tuple(toks))
    setp(st, p, toks=join(s.toks, toks), width=I32(0))


def put_num(st, p, v):
    s = strm(st, p)
    if s.failed:
        return
    setp(st, p, toks=join(s.toks, (Num(v, s.flags, s.prec, s.width, s.fill),)), width=I32(0))


def put_text(st, p, t):
    put(st, p, (Lit(t),), len(t))


def flagval(n):
    if not dag.isic(n):
        raise Unsupported("format flags are not constant")
    return n.a[0] & 0xffffffff


MANIP = {"fixed": (FIXED, FLOATFIELD), "scientific": (SCI, FLOATFIELD), "hexfloat": (FLOATFIELD, FLOATFIELD), "defaultfloat": (0, FLOATFIELD),
         "left": (LEFT, ADJUST), "right": (RIGHT, ADJUST), "internal": (INTERNAL, ADJUST), "dec": (DEC, BASE), "hex": (HEX, BASE),
         "oct": (OCT, BASE), "showpos": (SHOWPOS, SHOWPOS), "noshowpos": (0, SHOWPOS), "showpoint": (SHOWPOINT, SHOWPOINT),
         "noshowpoint": (0, SHOWPOINT), "uppercase": (UPPER, UPPER), "nouppercase": (0, UPPER), "skipws": (SKIPWS, SKIPWS),
         "noskipws": (0, SKIPWS), "boolalpha": (BOOLALPHA, BOOLALPHA), "noboolalpha": (0, BOOLALPHA), "unitbuf": (UNITBUF, UNITBUF),
         "nounitbuf": (0, UNITBUF), "showbase": (SHOWBASE, SHOWBASE), "noshowbase": (0, SHOWBASE)}


def manip(st, p, name):
    """apply a manipulator by demangled name"""
    m = re.search(r"std::(\w+)(<[^(]*>)?$", sargs(norm(name))[0])
    k = m.group(1) if m else ""
    if k in MANIP:
        on, mask = MANIP[k]
        setp(st, p, flags=strm(st, p).flags & ~mask | on)
    elif k == "endl":
        s = strm(st, p)
        setp(st, p, toks=join(s.toks, (Lit("\n"),)))
    elif k in ("flush",):
        pass
    elif k == "ends":
        s = strm(st, p)
        setp(st, p, toks=join(s.toks, (Lit("\0"),)))
    elif k == "ws":
        pass
    else:
        raise Unsupported("manipulator " + name)


# ------------------------------------------------------------------ reading
def read_double(ex, st, p, target):
    s = strm(st, p)
    if s.failed:
        setp(st, p, ever=True)
        return [Out(st, p)]
    k = s.nread
    if s.ext:
        eof = mk("bvar", "b", f"eof{k - 1}")
        ok = mk("bvar", "b", f"ok{k}")
        outs = []
        if st.known.get(eof.id) is not True:
            s1 = st.copy()
            s1.decide(ok, True)
            setp(s1, p, nread=k + 1)
            for q, e in ex.store(s1, target, DOUBLE, dag.var(f"x{k}")):
                outs.append(Out(q, p, e))
        st.decide(ok, False)
        setp(st, p, nread=k + 1, failed=True, ever=True)
        for q, e in ex.store(st, target, DOUBLE, dag.var(f"junk{k}")):
            outs.append(Out(q, p, e))
        return outs
    i = s.pos
    toks = s.toks
    if not s.flags & SKIPWS:
        raise Unsupported("extraction without skipping blanks")
    while i < len(toks) and (isinstance(toks[i], Lit) and not toks[i].text.strip(WS) or isinstance(toks[i], Pad) and toks[i].fill in WS):
        i += 1
    good = False
    val = dag.var(f"junk{k}")
    if i < len(toks):
        t = toks[i]
        if isinstance(t, Lit):
            if t.text.lstrip(WS)[0] in "+-.0123456789":
                raise Unsupported("number in literal text")
        elif isinstance(t, Num):
            nxt = toks[i + 1] if i + 1 < len(toks) else None
            good = True
            padded = not (dag.isic(t.width) and t.width.a[0] == 0)
            if padded and t.fill not in WS:
                raise Unsupported("number padded with " + repr(t.fill))
            if isinstance(nxt, Num) or isinstance(nxt, Pad):
                # adjacent numbers: the text of the two runs together
                val = dag.var(f"garbled{k}")
            elif isinstance(nxt, Lit) and nxt.text[0] in ".0123456789eE+-,":
                val = dag.var(f"garbled{k}")
            else:
                val = mk("fn", "d", "reread", t.val, dag.iconst(32, t.flags & (FLOATFIELD | UPPER)), t.prec)
            i += 1
    setp(st, p, pos=i, nread=k + 1)
    if not good:
        setp(st, p, failed=True, ever=True)
    return [Out(q, p, e) for q, e in ex.store(st, target, DOUBLE, val)]


# ------------------------------------------------------------------ handlers
def vtable(ex, st, al, offs):
    """make the virtual-base offset stored before the virtual table read as 0: one object is one stream"""
    vt = ex.alloc(st, 128, "const", "virtual table")
    st.mem[vt] = {8 * i: (8, dag.iconst(64, 0)) for i in range(16)}
    for o in offs:
        cells = dict(st.mem[al])
        ex._clear(cells, o, 8)
        cells[o] = (8, Ptr(vt, 64))
        st.mem[al] = cells


def ctor(kind, how):
    def h(ex, st, args, ins):
        p = args[0]
        if not isinstance(p, Ptr):
            raise Unsupported("stream constructor")
        toks = string(st, args[1]) if how == "string" else ()
        vtable(ex, st, p.al, [p.off] + ([p.off + 16] if kind == "stringstream" else []))
        new_stream(ex, st, p.al, toks)
        return [Out(st, None)]
    return h


def dtor(ex, st, args, ins):
    return [Out(st, None)]


def ret0(f):
    """apply f and return the stream"""
    def h(ex, st, args, ins):
        f(ex, st, *args)
        return [Out(st, args[0])]
    return h


def void(f):
    def h(ex, st, args, ins):
        return [Out(st, f(ex, st, *args))]
    return h


def ins_fnptr(ex, st, args, ins):
    p, f = args
    if not isinstance(f, Fn):
        raise Unsupported("manipulator through an unknown pointer")
    from .symex import demangle
    n = demangle(f.name[1:])
    if "std::" in n.split("(")[0]:
        manip(st, p, n)
        return [Out(st, p)]
    return [Out(o.st, p, o.abn) for o in ex.invoke(st, f.name, [p], {}, 0)]


def ins_string(ex, st, p, s):
    put(st, p, string(st, s))


def num_str(st, p, v):
    raise Unsupported("integer output")


def sret_str(f):
    """function returning a string through its first argument"""
    def h(ex, st, args, ins):
        setstr(st, args[0], f(ex, st, *args[1:]))
        return [Out(st, None)]
    return h


def text_len(toks):
    if all(isinstance(t, Lit) for t in toks):
        return sum(len(t.text) for t in toks)
    return None


def str_size(ex, st, p):
    n = text_len(string(st, p))
    if n is None:
        raise Unsupported("length of formatted text")
    return dag.iconst(64, n)


def str_empty(ex, st, p):
    t = string(st, p)
    n = text_len(t)
    if n is not None:
        return dag.boolc(n == 0)
    if any(isinstance(x, Num) for x in t):
        return dag.FALSE
    raise Unsupported("length of formatted text")


def failnode(st, p):
    return dag.boolc(strm(st, p).failed)


def good(ex, st, p):
    s = strm(st, p)
    if s.failed:
        return dag.FALSE
    if s.ext:
        return NOT(mk("bvar", "b", f"eof{s.nread - 1}"))
    return dag.boolc(any(isinstance(t, Num) for t in s.toks[s.pos:]) or s.nread == 0) if not s.nread else _nogood()


def _nogood():
    raise Unsupported("end-of-file state of an internal stream")


def eof(ex, st, p):
    s = strm(st, p)
    if s.ext:
        return mk("bvar", "b", f"eof{s.nread - 1}")
    _nogood()


def clear(ex, st, p, n):
    if not dag.isic(n):
        raise Unsupported("clear")
    setp(st, p, failed=bool(n.a[0] & 5))


def setstate(ex, st, p, n):
    if not dag.isic(n):
        raise Unsupported("setstate")
    if n.a[0] & 5:
        setp(st, p, failed=True, ever=True)


def setf1(ex, st, p, on):
    o = strm(st, p).flags
    setp(st, p, flags=o | flagval(on))
    return dag.iconst(32, o)


def setf2(ex, st, p, on, mask):
    o = strm(st, p).flags
    m = flagval(mask)
    setp(st, p, flags=o & ~m | flagval(on) & m)
    return dag.iconst(32, o)


def unsetf(ex, st, p, m):
    setp(st, p, flags=strm(st, p).flags & ~flagval(m))


def flags_set(ex, st, p, f):
    o = strm(st, p).flags
    setp(st, p, flags=flagval(f))
    return dag.iconst(32, o)


def low32(n):
    return dag.icast("trunc", 32, n) if n.s[1] == 64 else n


def sx64(n):
    return dag.icast("sext", 64, n)


def prec_set(ex, st, p, n):
    o = strm(st, p).prec
    setp(st, p, prec=low32(n))
    return sx64(o)


def width_set(ex, st, p, n):
    o = strm(st, p).width
    setp(st, p, width=low32(n))
    return sx64(o)


def fill_set(ex, st, p, c):
    o = strm(st, p).fill
    setp(st, p, fill=chr_of(c))
    return dag.iconst(8, ord(o))


def rep_char(ex, st, n, c):
    if not dag.isic(n):
        raise Unsupported("text of symbolic length")
    return (Lit(chr_of(c) * n.a[0]),)


def write_n(ex, st, p, q, n):
    if not dag.isic(n):
        raise Unsupported("write")
    s = strm(st, p)
    t = cstr(ex, st, q)
    setp(st, p, toks=join(s.toks, (Lit(t[:n.a[0]]),)))


def str_assign(get):
    def h(ex, st, args, ins):
        setstr(st, args[0], join((), get(ex, st, *args[1:])))
        return [Out(st, args[0])]
    return h


def str_append(get):
    def h(ex, st, args, ins):
        setstr(st, args[0], join(string(st, args[0]), get(ex, st, *args[1:])))
        return [Out(st, args[0])]
    return h


def moved(ex, st, p):
    t = string(st, p)
    return t


G_STR = lambda ex, st, p, *r: string(st, p)
G_C = lambda ex, st, p, *r: (Lit(cstr(ex, st, p)),)
G_CN = lambda ex, st, p, n, *r: (Lit(cstr(ex, st, p)[:n.a[0] if dag.isic(n) else _nogood()]),)
G_CH = lambda ex, st, c, *r: (Lit(chr_of(c)),)
G_REP = lambda ex, st, n, c, *r: rep_char(ex, st, n, c)
GET = {"string const&": G_STR, "string&&": G_STR, "string&": G_STR, "char const*": G_C, "char": G_CH}
ALLOC = re.compile(r", (std::allocator<char>|std::char_traits<char>) const&$")


def sargs(d):
    """text between the outermost parentheses of the parameter list"""
    d = re.sub(r"\)( const)?( &)?$", ")", d)
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ")":
            depth += 1
        elif d[i] == "(":
            depth -= 1
            if depth == 0:
                return d[:i], d[i + 1:-1]
    return d, ""


_cache = {}


def lib(m, d):
    if d not in _cache:
        _cache[d] = _lib(m, norm(d))
    return _cache[d]


def _lib(m, d):
    if "(anonymous namespace)" in d or "engabra" in d.split("(")[0]:
        return None
    head, ar = sargs(d)
    ar = ALLOC.sub("", ar)
    k = re.match(r"(ostringstream|istringstream|stringstream)::(~?)(basic_\w+|str|rdbuf|view)$", head)
    if k:
        kind, tilde, f = k.groups()
        if tilde:
            return dtor
        if f.startswith("basic_"):
            if ar in ("", "std::_Ios_Openmode"):
                return ctor(kind, "")
            if ar.startswith(("string const&", "string&&")):
                return ctor(kind, "string")
            return None
        if f == "str":
            if ar == "":
                return sret_str(lambda ex, st, p: strm(st, p).toks)
            if ar in ("string const&", "string&&"):
                def h(ex, st, args, ins):
                    setp(st, args[0], toks=string(st, args[1]), pos=0)
                    return [Out(st, None)]
                return h
        return None
    if re.match(r"std::basic_(ostream|istream|iostream|ios)|std::ios_base", head):
        pass
    # insertion
    if head.startswith("ostream::operator<<"):
        if ar == "double":
            return ret0(lambda ex, st, p, v: put_num(st, p, v))
        if "(*)(" in d:
            return ins_fnptr
        return None
    k = re.search(r"std::operator<< ?<[^(]*>$", head)
    if k:
        a = ar.split(", ", 1)
        if len(a) == 2 and a[0] == "ostream&":
            t = a[1]
            if t == "char const*":
                return ret0(lambda ex, st, p, q: put_text(st, p, cstr(ex, st, q)))
            if t == "char":
                return ret0(lambda ex, st, p, c: put_text(st, p, chr_of(c)))
            if t == "string const&":
                return ret0(ins_string)
            if t == "std::_Setw":
                return ret0(lambda ex, st, p, n: setp(st, p, width=low32(one(n))))
            if t == "std::_Setprecision":
                return ret0(lambda ex, st, p, n: setp(st, p, prec=low32(one(n))))
            if t.startswith("std::_Setfill"):
                return ret0(lambda ex, st, p, n: setp(st, p, fill=chr_of(one(n))))
            if t == "std::_Setiosflags":
                return ret0(lambda ex, st, p, n: setp(st, p, flags=strm(st, p).flags | flagval(one(n))))
            if t == "std::_Resetiosflags":
                return ret0(lambda ex, st, p, n: setp(st, p, flags=strm(st, p).flags & ~flagval(one(n))))
        return None
    if head == "ostream::put":
        return ret0(lambda ex, st, p, c: setp(st, p, toks=join(strm(st, p).toks, (Lit(chr_of(c)),))))
    if head == "ostream::write":
        return ret0(write_n)
    if head == "ostream::flush":
        return ret0(lambda ex, st, p: None)
    if head.startswith("std::") and ar in ("std::ios_base&", "ostream&", "istream&") or re.match(r"(ostream|istream)& std::\w+<", head) and ar in ("ostream&", "istream&"):
        f = re.search(r"std::(\w+)(<[^(]*>)?$", head)
        if f and (f.group(1) in MANIP or f.group(1) in ("endl", "flush", "ends", "ws")):
            return ret0(lambda ex, st, p: manip(st, p, "std::" + f.group(1) + "()"))
    if head == "std::ios_base::setf":
        return void(setf2 if ", " in ar else setf1)
    if head == "std::ios_base::unsetf":
        return void(unsetf)
    if head == "std::ios_base::flags":
        return void(flags_set) if ar else void(lambda ex, st, p: dag.iconst(32, strm(st, p).flags))
    if head == "std::ios_base::precision":
        return void(prec_set) if ar else void(lambda ex, st, p: sx64(strm(st, p).prec))
    if head == "std::ios_base::width":
        return void(width_set) if ar else void(lambda ex, st, p: sx64(strm(st, p).width))
    if head == "ios::fill":
        return void(fill_set) if ar else void(lambda ex, st, p: dag.iconst(8, ord(strm(st, p).fill)))
    # state and extraction
    if head in ("ios::fail", "ios::operator!"):
        return void(lambda ex, st, p: failnode(st, p))
    if head == "ios::operator bool":
        return void(lambda ex, st, p: NOT(failnode(st, p)))
    if head == "ios::good":
        return void(good)
    if head == "ios::eof":
        return void(eof)
    if head == "ios::bad":
        return void(lambda ex, st, p: dag.FALSE if not strm(st, p).failed else mk("bvar", "b", f"bad{strm(st, p).nread}"))
    if head == "ios::clear":
        return void(clear)
    if head == "ios::setstate":
        return void(setstate)
    if head == "ios::copyfmt":
        def copyfmt(ex, st, p, q):
            o = strm(st, q)
            setp(st, p, flags=o.flags, prec=o.prec, width=o.width, fill=o.fill)
        return ret0(copyfmt)
    if head == "istream::operator>>":
        if ar == "double&":
            return lambda ex, st, args, ins: read_double(ex, st, args[0], args[1])
        if "(*)(" in d:
            return ins_fnptr
        return None
    # strings
    if head.startswith("string::"):
        f = head[8:]
        f = re.sub(r"<[^(]*>$", "", f)
        if f == "~basic_string":
            return dtor
        if f == "basic_string":
            if ar in ("", "std::allocator<char> const&"):
                return str_assign(lambda ex, st: ())
            if ar in GET:
                return str_assign(GET[ar])
            if ar == "unsigned long, char":
                return str_assign(G_REP)
            if ar == "char const*, unsigned long":
                return str_assign(G_CN)
            return None
        if f in ("operator=", "assign"):
            return str_assign(GET[ar]) if ar in GET else str_assign(G_REP) if ar == "unsigned long, char" else None
        if f in ("operator+=", "append", "push_back"):
            return str_append(GET[ar]) if ar in GET else str_append(G_REP) if ar == "unsigned long, char" else str_append(
                G_CN) if ar == "char const*, unsigned long" else None
        if f in ("size", "length"):
            return void(str_size)
        if f == "empty":
            return void(str_empty)
        if f == "clear":
            return str_assign(lambda ex, st: ())
        if f in ("reserve", "shrink_to_fit"):
            return void(lambda ex, st, *a: None)
        return None
    k = re.match(r"string std::operator\+ ?<[^(]*>$", head)
    if k:
        a = ar.split(", ")
        if len(a) == 2 and a[0] in GET and a[1] in GET:
            return sret_str(lambda ex, st, x, y: join(GET[a[0]](ex, st, x), GET[a[1]](ex, st, y)))
    if head in ("std::allocator<char>::allocator", "std::allocator<char>::~allocator", "std::__new_allocator<char>::~__new_allocator"):
        return dtor
    return None


def one(n):
    """a one-member structure passed by value"""
    if isinstance(n, Agg):
        return n.e[0]
    return n
