"""Hash-consed expression DAG: what the code computes, before any interpretation in a theory.

sorts: 'd' double (or float values, held exactly as doubles), 'b' bool, ('i',w) integers of width w.
"""
import struct


class N:
    __slots__ = ("op", "a", "s", "id")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self, 3)


def mk(op, s, *a):
    key = (op, s, tuple((x.id if isinstance(x, N) else ("#", x)) for x in a))
    n = N._tab.get(key)
    if n is None:
        n = N.__new__(N)
        n.op = op
        n.a = a
        n.s = s
        n.id = N._n
        N._n += 1
        N._tab[key] = n
    return n


def reset():
    N._tab.clear()


def show(n, d=6):
    if not isinstance(n, N):
        return repr(n)
    if n.op == "const":
        return repr(bits2f(n.a[0]))
    if n.op in ("var", "bvar", "ivar", "iconst"):
        return str(n.a[-1])
    if n.op in ("true", "false"):
        return n.op
    if d == 0:
        return "..."
    return n.op + "(" + ", ".join(show(x, d - 1) for x in n.a) + ")"


def f2bits(x):
    return int.from_bytes(struct.pack(">d", x), "big")


def bits2f(b):
    return struct.unpack(">d", b.to_bytes(8, "big"))[0]


TRUE = mk("true", "b")
FALSE = mk("false", "b")


def boolc(b):
    return TRUE if b else FALSE


def const(x):
    return mk("const", "d", f2bits(x))


def isconst(n):
    return n.op == "const"


def cval(n):
    return bits2f(n.a[0])


def var(name):
    return mk("var", "d", name)


_undef = [0]


def undef(s="d"):
    _undef[0] += 1
    return mk("undef", s, _undef[0])


def arith(op, a, b, prec=53):
    return mk(op, "d", a, b, prec)


def fneg(a):
    if a.op == "fneg":
        return a.a[0]
    if isconst(a):
        return mk("const", "d", a.a[0] ^ (1 << 63))
    return mk("fneg", "d", a)


def fn(name, *a):
    return mk("fn", "d", name, *a)


def spec(cid, idx, sort, *a):
    return mk("spec", sort, cid, idx, *a)


def NOT(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", "b", a)


def as_class(n):
    """(mask, x) if the condition says which classes x may be of"""
    if n.op == "fclass":
        return n.a
    if n.op == "ford":
        return 1020, n.a[0]
    if n.op == "fcmp" and n.a[0] == "oeq":
        for x, k in ((n.a[1], n.a[2]), (n.a[2], n.a[1])):
            if isconst(k) and cval(k) == 0:
                return 0x60, x
    if n.op == "not":
        r = as_class(n.a[0])
        return r and (1023 & ~r[0], r[1])
    return None


def _isclass(n):
    return n.op == "fclass" or n.op == "not" and n.a[0].op == "fclass"


def classes(a, b, f):
    """both conditions about the class of one value, as one test"""
    if not (_isclass(a) or _isclass(b)):
        return None
    p, q = as_class(a), as_class(b)
    return fclass(1023 & f(p[0], q[0]), p[1]) if p and q and p[1] is q[1] else None


def AND(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a is NOT(b):
        return FALSE
    return classes(a, b, int.__and__) or mk("and", "b", a, b)


def OR(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a is NOT(b):
        return TRUE
    return classes(a, b, int.__or__) or mk("or", "b", a, b)


def XOR(a, b):
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    if a is TRUE:
        return NOT(b)
    if b is TRUE:
        return NOT(a)
    if a is b:
        return FALSE
    return mk("xor", "b", a, b)


def ITE(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ITE(c.a[0], b, a)
    if a.s == "b":
        if a is TRUE:
            return OR(c, b)
        if b is FALSE:
            return AND(c, a)
        if a is FALSE:
            return AND(NOT(c), b)
        if b is TRUE:
            return OR(NOT(c), a)
        if _isclass(c) or _isclass(a) or _isclass(b):
            p, q, r = as_class(c), as_class(a), as_class(b)
            if p and q and r and p[1] is q[1] is r[1]:
                return fclass(p[0] & q[0] | ~p[0] & 1023 & r[0], p[1])
    if c.op == "fsign" and a.s == "d":
        # a choice by the sign bit: |x| and -|x| are x or -x
        x = c.a[0]
        f = fn("fabs", x)
        p, q = (fneg(x) if a is f else x if a is fneg(f) else a), (x if b is f else fneg(x) if b is fneg(f) else b)
        if p is q:
            return p
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    return mk("ite", a.s, c, a, b)


_FCMP = {"oeq": lambda a, b: a == b, "ogt": lambda a, b: a > b, "oge": lambda a, b: a >= b, "olt": lambda a, b: a < b,
         "ole": lambda a, b: a <= b, "one": lambda a, b: a == a and b == b and a != b,
         "ord": lambda a, b: a == a and b == b, "uno": lambda a, b: a != a or b != b}
_UN = {"ueq": "one", "ugt": "ole", "uge": "olt", "ult": "oge", "ule": "ogt", "une": "oeq"}


def fcmp(pred, a, b):
    if pred == "true":
        return TRUE
    if pred == "false":
        return FALSE
    if isconst(a) and isconst(b):
        x, y = cval(a), cval(b)
        if pred in _FCMP:
            return boolc(_FCMP[pred](x, y))
        return boolc(not _FCMP[_UN[pred]](x, y))
    if pred in _UN:
        return NOT(fcmp(_UN[pred], a, b))
    if pred == "uno":
        return NOT(fcmp("ord", a, b))
    if pred == "olt":
        return fcmp("ogt", b, a)
    if pred == "ole":
        return fcmp("oge", b, a)
    if pred == "ord":
        if a is b:
            b = const(0.0)
        for x, y in ((a, b), (b, a)):
            if isconst(x):
                v = cval(x)
                if v != v:
                    return FALSE
                return mk("ford", "b", y)
        return AND(mk("ford", "b", a), mk("ford", "b", b))
    if pred in ("oeq", "one") and a.id > b.id:
        a, b = b, a
    k = range_class(pred, a, b)
    if k:
        return fclass(*k)
    if isconst(a) and cval(a) != cval(a) or isconst(b) and cval(b) != cval(b):
        return FALSE
    return mk("fcmp", "b", pred, a, b)


MINN, MAXD, INFD = 2.0 ** -1022, float.fromhex("0x1.fffffffffffffp+1023"), float("inf")


def range_class(pred, a, b):
    """a comparison with the bounds of the normal range is a test of the class"""
    def ab(n):
        return n.a[1] if n.op == "fn" and n.a[0] == "fabs" else None
    if isconst(b) and ab(a):
        k = cval(b)
        m = {("oge", MINN): 8 | 256 | 4 | 512, ("ogt", MAXD): 4 | 512, ("oge", INFD): 4 | 512, ("oeq", INFD): 4 | 512, ("one", INFD): 0x1F8}.get((pred, k))
        return m and (m, ab(a))
    if isconst(a) and ab(b):
        k = cval(a)
        m = {("oge", MAXD): 0x1F8, ("ogt", INFD): 0x1F8, ("ogt", MINN): 16 | 32 | 64 | 128, ("oeq", INFD): 4 | 512, ("one", INFD): 0x1F8}.get((pred, k))
        return m and (m, ab(b))
    return None


def fclass(mask, a):
    if mask == 0:
        return FALSE
    if mask == 1023:
        return TRUE
    if isconst(a):
        return boolc(bool(mask & class_of(a.a[0])))
    return mk("fclass", "b", mask, a)


def class_of(bits):
    s = bits >> 63
    e = (bits >> 52) & 0x7FF
    m = bits & ((1 << 52) - 1)
    if e == 0x7FF:
        if m:
            return 2 if m >> 51 else 1
        return 4 if s else 512
    if e == 0:
        if m:
            return 16 if s else 128
        return 32 if s else 64
    return 8 if s else 256


# ---------------------------------------------------------------- integers
def iconst(w, v):
    return mk("iconst", ("i", w), v & ((1 << w) - 1))


def ivar(w, name):
    return mk("ivar", ("i", w), name)


def isic(n):
    return n.op == "iconst"


def sgn(w, v):
    return v - (1 << w) if v >> (w - 1) else v


def ibin(op, a, b):
    w = a.s[1]
    if isic(a) and isic(b):
        x, y = a.a[0], b.a[0]
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif op == "mul":
            r = x * y
        elif op == "and":
            r = x & y
        elif op == "or":
            r = x | y
        elif op == "xor":
            r = x ^ y
        elif op == "shl":
            r = x << y if y < w else 0
        elif op == "lshr":
            r = x >> y if y < w else 0
        elif op == "ashr":
            r = sgn(w, x) >> min(y, w - 1)
        elif op == "udiv":
            r = x // y if y else 0
        elif op == "urem":
            r = x % y if y else 0
        elif op == "sdiv":
            sx, sy = sgn(w, x), sgn(w, y)
            r = 0 if not sy else (abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1)
        elif op == "srem":
            sx, sy = sgn(w, x), sgn(w, y)
            r = 0 if not sy else (abs(sx) % abs(sy)) * (1 if sx >= 0 else -1)
        else:
            raise ValueError(op)
        return iconst(w, r)
    if op in ("add", "or", "xor", "shl", "lshr", "ashr", "sub") and isic(b) and b.a[0] == 0:
        return a
    if op in ("add", "or", "xor") and isic(a) and a.a[0] == 0:
        return b
    if op == "and":
        for x, y in ((a, b), (b, a)):
            if isic(x) and x.a[0] == 0:
                return x
            if isic(x) and x.a[0] == (1 << w) - 1:
                return y
    if isic(b) and constleaves(a) or isic(a) and constleaves(b):
        return leaves(lambda x, y: ibin(op, x, y), a, b)
    # booleans living in integers
    ba, bb = as_bool(a), as_bool(b)
    if ba is not None and bb is not None and op in ("and", "or", "xor"):
        f = {"and": AND, "or": OR, "xor": XOR}[op]
        return zextb(w, f(ba, bb))
    return mk("ibin", ("i", w), op, a, b)


def as_bool(n):
    """If n (integer) is known to be zext of a bool, return the bool."""
    if n.op == "zextb":
        return n.a[0]
    if n.op == "iconst" and n.a[0] in (0, 1):
        return boolc(n.a[0])
    return None


def zextb(w, b):
    if b is TRUE:
        return iconst(w, 1)
    if b is FALSE:
        return iconst(w, 0)
    return mk("zextb", ("i", w), b)


def icast(op, w, a):
    """a integer node -> width w"""
    if w == a.s[1]:
        return a
    if isic(a):
        v = a.a[0]
        if op == "sext":
            v = sgn(a.s[1], v)
        return iconst(w, v)
    if a.op == "zextb":
        if op in ("zext", "trunc"):
            return zextb(w, a.a[0])
        if op == "sext" and a.s[1] > 1:
            return zextb(w, a.a[0])
    if constleaves(a, 4):
        return ITE(a.a[0], icast(op, w, a.a[1]), icast(op, w, a.a[2]))
    if op == "trunc" and a.op == "icast" and a.a[1].s[1] == w:
        return a.a[1]
    return mk("icast", ("i", w), op, a)


def constleaves(n, d=16):
    """a choice between constants"""
    return n.op == "ite" and d > 0 and all(isic(x) or constleaves(x, d - 1) for x in n.a[1:])


def leaves(f, a, b):
    if a.op == "ite":
        return ITE(a.a[0], leaves(f, a.a[1], b), leaves(f, a.a[2], b))
    if b.op == "ite":
        return ITE(b.a[0], leaves(f, a, b.a[1]), leaves(f, a, b.a[2]))
    return f(a, b)


def push(pred, a, b):
    if a.op == "ite":
        return ITE(a.a[0], push(pred, a.a[1], b), push(pred, a.a[2], b))
    if b.op == "ite":
        return ITE(b.a[0], push(pred, a, b.a[1]), push(pred, a, b.a[2]))
    return icmp(pred, a, b)


def icmp(pred, a, b):
    w = a.s[1]
    if isic(a) and isic(b):
        x, y = a.a[0], b.a[0]
        if pred[0] == "s":
            x, y = sgn(w, x), sgn(w, y)
        p = pred if pred in ("eq", "ne") else pred[1:]
        return boolc({"eq": x == y, "ne": x != y, "gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p])
    if a is b:
        return boolc(pred in ("eq", "uge", "ule", "sge", "sle"))
    ba, bb = as_bool(a), as_bool(b)
    if ba is not None and bb is not None:
        if pred == "eq":
            return NOT(XOR(ba, bb))
        if pred == "ne":
            return XOR(ba, bb)
    if isic(b) and constleaves(a) or isic(a) and constleaves(b):
        return push(pred, a, b)
    if pred == "ne":
        return NOT(icmp("eq", a, b))
    if pred in ("ult", "ule", "slt", "sle"):
        return icmp({"ult": "ugt", "ule": "uge", "slt": "sgt", "sle": "sge"}[pred], b, a)
    if pred in ("uge", "sge"):
        return NOT(icmp(pred[0] + "gt", b, a))
    # sign test of the bit pattern of a double
    if a.op == "iconst" and b.op == "bits" and pred == "sgt" and a.a[0] == 0 and w == 64:
        if isconst(b.a[0]):
            return boolc(bool(b.a[0].a[0] >> 63))
        return mk("fsign", "b", b.a[0])
    return mk("icmp", "b", pred, a, b)


def bits(d):
    if isconst(d):
        return iconst(64, d.a[0])
    if d.op == "frombits":
        return d.a[0]
    return mk("bits", ("i", 64), d)


def frombits(i):
    if isic(i):
        return mk("const", "d", i.a[0])
    if i.op == "bits":
        return i.a[0]
    # fabs / fneg idioms on bit patterns
    if i.op == "ibin" and i.a[0] == "and":
        for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
            if isic(x) and x.a[0] == (1 << 63) - 1 and y.op == "bits":
                return fn("fabs", y.a[0])
    if i.op == "ibin" and i.a[0] == "xor":
        for x, y in ((i.a[1], i.a[2]), (i.a[2], i.a[1])):
            if isic(x) and x.a[0] == 1 << 63 and y.op == "bits":
                return fneg(y.a[0])
    return mk("frombits", "d", i)


def walk(roots):
    """All nodes reachable from roots, children first."""
    seen = {}
    order = []
    st = [(r, 0) for r in roots]
    while st:
        n, ph = st.pop()
        if ph:
            order.append(n)
            continue
        if n.id in seen:
            continue
        seen[n.id] = 1
        st.append((n, 1))
        for x in n.a:
            if isinstance(x, N) and x.id not in seen:
                st.append((x, 0))
    return order
