"""Exact real terms in normal form: Laurent polynomials over Q in 'atoms'.

Atoms: variables; pi; Q(q) = a non-monomial polynomial kept as one factor (any integer exponent); S(q) = sqrt(q) with S^2 = Q(q);
A(q) = |q|; E(t) = exp(t); C(t), Z(t) = cos t, sin t (products are linearised, so at most one per monomial); L(t) = log t;
AT(y,x) = atan2; CR, CI = real / imaginary part of the principal complex square root; F = any other function.
"""
from fractions import Fraction as Fr
from math import isqrt, gcd


class Atom:
    __slots__ = ("id", "kind", "data", "nonneg", "pos", "name")
    tab = {}
    lst = []

    def __repr__(self):
        return self.name


def atom(kind, data, key, nonneg=False, pos=False, name=None):
    k = (kind, key)
    a = Atom.tab.get(k)
    if a is None:
        a = Atom()
        a.id = len(Atom.lst)
        a.kind, a.data, a.nonneg, a.pos = kind, data, nonneg or pos, pos
        a.name = name or f"{kind}({', '.join(str(x) for x in (data if isinstance(data, tuple) else (data,)))})"
        Atom.tab[k] = a
        Atom.lst.append(a)
    return a


class Poly:
    __slots__ = ("d", "_k")

    def __init__(self, d):
        self.d = d
        self._k = None

    @property
    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        if not self.d:
            return "0"
        ts = []
        for m, c in sorted(self.d.items())[:12]:
            s = "*".join(f"{Atom.lst[a]}" + (f"^{e}" if e != 1 else "") for a, e in m)
            ts.append((f"{c}*" if c != 1 or not s else "") + s if s else str(c))
        return " + ".join(ts) + (" + ..." if len(self.d) > 12 else "")

    def isconst(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), Fr(0))

    def __bool__(self):
        return bool(self.d)

    def __add__(self, o):
        if not isinstance(o, Poly):
            if hasattr(o, "er"):
                return NotImplemented
            o = pc(o)
        if len(self.d) < len(o.d):
            self, o = o, self
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return Poly(d)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if hasattr(o, "er"):
            return NotImplemented
        return self + (-o if isinstance(o, Poly) else pc(-Fr(o)))

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, c):
        if not c:
            return ZERO
        return Poly({m: v * c for m, v in self.d.items()})

    def __mul__(self, o):
        if not isinstance(o, Poly):
            if hasattr(o, "er"):
                return NotImplemented
            return self.scale(Fr(o))
        if len(self.d) == 1 and () in self.d:
            return o.scale(self.d[()])
        if len(o.d) == 1 and () in o.d:
            return self.scale(o.d[()])
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                for m, c in mmul(m1, m2):
                    v = d.get(m, 0) + c * c1 * c2
                    if v:
                        d[m] = v
                    else:
                        d.pop(m, None)
        return Poly(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        if not isinstance(o, Poly):
            return self.scale(1 / Fr(o))
        return self * inv(o)

    def __rtruediv__(self, o):
        return inv(self) * o


ZERO = Poly({})


def pc(c):
    c = Fr(c)
    return Poly({(): c}) if c else ZERO


ONE = pc(1)
_special = {"S", "C", "Z", "E", "A", "CR", "CI"}


def av(a, e=1):
    return Poly({((a.id, e),): Fr(1)})


def var(name, nonneg=False):
    return av(atom("v", name, name, name=name, nonneg=nonneg))


PI = av(atom("pi", "pi", "pi", pos=True, name="pi"))


def mmul(m1, m2):
    """product of monomials -> list of (monomial, coefficient)"""
    if not m1:
        return ((m2, 1),)
    if not m2:
        return ((m1, 1),)
    d = dict(m1)
    spec = False
    for a, e in m2:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    for a in d:
        if Atom.lst[a].kind in _special:
            spec = True
            break
    if not spec:
        return ((tuple(sorted(d.items())), 1),)
    return normmono(d)


def normmono(d):
    L = Atom.lst
    extra = None        # polynomial factor that must be multiplied in
    trig = []
    for a in list(d):
        A = L[a]
        k = A.kind
        e = d[a]
        if k == "S":
            if e == 1:
                continue
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            f = qpow(A.data, q)
            extra = f if extra is None else extra * f
        elif k == "A":
            if e == 1:
                continue
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            f = qpow(A.data, 2 * q)
            extra = f if extra is None else extra * f
        elif k == "E":
            t, den = A.data
            g = gcd(abs(e), den)
            if g > 1:
                del d[a]
                f = av(eatom(t, den // g), e // g)
                extra = f if extra is None else extra * f
        elif k in ("C", "Z"):
            trig.append((a, e))
        elif k == "CI":
            x, y = A.data
            cr = atom("CR", (x, y), (x.key, y.key), nonneg=True)
            if e >= 2:
                # v^2 = (|z| - x) / 2
                del d[a]
                f = (hypot(x, y) - x) * Fr(1, 2)
                if e > 2:
                    f = f * av(A, e - 2)
                extra = f if extra is None else extra * f
            elif e == 1 and d.get(cr.id, 0) > 0:
                # u v = y/2
                del d[a]
                d[cr.id] -= 1
                if not d[cr.id]:
                    del d[cr.id]
                f = y * Fr(1, 2)
                extra = f if extra is None else extra * f
        elif k == "CR":
            if e >= 2:
                # u^2 = (|z| + x) / 2
                x, y = A.data
                d[a] = e - 2
                if not d[a]:
                    del d[a]
                f = (hypot(x, y) + x) * Fr(1, 2)
                extra = f if extra is None else extra * f
    ntr = sum(abs(e) for _, e in trig)
    if ntr > 1 and all(e > 0 for _, e in trig):
        f = None
        for a, e in trig:
            del d[a]
            for _ in range(e):
                f = trigmul(f, L[a])
        extra = f if extra is None else extra * f
    base = tuple(sorted(d.items()))
    if extra is None:
        return ((base, 1),)
    r = Poly({base: Fr(1)}) * extra
    return tuple(r.d.items())


def trigmul(f, A):
    """f: Poly linear in trig atoms (or None) times cos/sin atom A, linearised"""
    if f is None:
        return av(A)
    res = ZERO
    for m, c in f.d.items():
        tr = [(a, e) for a, e in m if Atom.lst[a].kind in ("C", "Z")]
        rest = Poly({tuple(x for x in m if x not in tr): c})
        if not tr:
            res = res + rest * av(A)
            continue
        assert len(tr) == 1 and tr[0][1] == 1
        B = Atom.lst[tr[0][0]]
        s, t = B.data, A.data
        if B.kind == "C" and A.kind == "C":
            p = (cos(s - t) + cos(s + t))
        elif B.kind == "Z" and A.kind == "Z":
            p = (cos(s - t) - cos(s + t))
        elif B.kind == "Z" and A.kind == "C":
            p = (sin(s + t) + sin(s - t))
        else:
            p = (sin(s + t) - sin(s - t))
        res = res + rest * p * Fr(1, 2)
    return res


# ---------------------------------------------------------------- factors
def qatom(q):
    return atom("Q", q, q.key, pos=known_pos_struct(q), nonneg=known_nonneg(q))


def content(p):
    """p = c * mono * prim, prim with integer-like leading coefficient 1 and no common monomial"""
    ms = list(p.d)
    common = None
    for m in ms:
        dm = dict(m)
        if common is None:
            common = dm
        else:
            common = {a: min(e, dm.get(a, 0)) for a, e in common.items()} | {a: min(0, e) for a, e in dm.items() if
                                                                          a not in common}
            common = {a: e for a, e in common.items() if e}
    c = p.d[max(ms)]
    if not common:
        return c, (), p.scale(1 / c) if c != 1 else p
    mono = tuple(sorted(common.items()))
    d = {}
    for m, v in p.d.items():
        dm = dict(m)
        for a, e in common.items():
            x = dm.get(a, 0) - e
            if x:
                dm[a] = x
            else:
                dm.pop(a, None)
        d[tuple(sorted(dm.items()))] = v / c
    return c, mono, Poly(d)


def minv(mono):
    """inverse of a monomial as Poly"""
    r = ONE
    for a, e in mono:
        A = Atom.lst[a]
        if A.kind == "S" and e == 1:
            r = r * av(A) * qpow(A.data, -1)
        else:
            r = r * av(A, -e)
    return r


def qpow(q, n):
    """q^n keeping a non-monomial q as one factor"""
    if n == 0:
        return ONE
    c, mono, prim = content(q)
    r = pc(Fr(c) ** n)
    if mono:
        r = r * (Poly({mono: Fr(1)}) ** n if n > 0 else minv(mono) ** (-n))
    if not prim.isconst():
        r = r * av(qatom(prim), n)
    return r


def inv(p):
    p = cancel(p)
    if not p.d:
        raise ZeroDivisionError
    return qpow(p, -1)


def expand(p):
    """multiply out Q factors; returns (N, D) with p = N * D, D a monomial product of Q^-k (as Poly), N free of Q atoms"""
    D = ONE
    guard = 0
    while True:
        guard += 1
        assert guard < 100
        qs = {}
        for m in p.d:
            for a, e in m:
                if Atom.lst[a].kind == "Q":
                    qs.setdefault(a, []).append(e)
        if not qs:
            return p, D
        a = max(qs)   # newest atom first: its polynomial may mention older ones
        mn = min(min(qs[a]), 0)
        if any(dict(m).get(a, 0) == 0 for m in p.d):
            mn = min(mn, 0)
        else:
            mn = min(qs[a])
        q = Atom.lst[a].data
        pw = {0: ONE}
        acc = {}
        for m, c in p.d.items():
            dm = dict(m)
            e = dm.pop(a, 0) - mn
            acc.setdefault(e, {})[tuple(sorted(dm.items()))] = c
        r = ZERO
        for e in sorted(acc):
            if e not in pw:
                pw[e] = q ** e
            r = r + Poly(acc[e]) * pw[e]
        if mn:
            D = D * av(Atom.lst[a], mn)
        p = r


def is_zero(p):
    if not p.d:
        return True
    n, _ = expand(p)
    return not n.d


def pdivides(n, q):
    """exact division n/q of polynomials with non-negative exponents (treating atoms as variables) or None"""
    if not n.d:
        return n
    for m in list(n.d) + list(q.d):
        for a, e in m:
            if e < 0:
                return None
    # graded order leading terms
    key = lambda m: (sum(e for _, e in m), m)
    # a monomial order must be multiplicative: use lex on exponent vectors over sorted atom ids
    ids = sorted({a for m in list(n.d) + list(q.d) for a, _ in m})
    pos = {a: i for i, a in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    N = {vec(m): c for m, c in n.d.items()}
    Q = {vec(m): c for m, c in q.d.items()}
    lq = max(Q)
    cq = Q[lq]
    out = {}
    steps = 0
    while N:
        steps += 1
        if steps > 3000:
            return None
        ln = max(N)
        dv = tuple(x - y for x, y in zip(ln, lq))
        if min(dv, default=0) < 0:
            return None
        c = N[ln] / cq
        out[dv] = c
        for m, k in Q.items():
            t = tuple(x + y for x, y in zip(m, dv))
            v = N.get(t, 0) - c * k
            if v:
                N[t] = v
            else:
                N.pop(t, None)
    return Poly({tuple((ids[i], e) for i, e in enumerate(v) if e): c for v, c in out.items()})


def cancel(p):
    """cancel Q denominators against numerators where they divide exactly"""
    if len(p.d) < 2:
        return p
    if not any(Atom.lst[a].kind == "Q" for m in p.d for a, _ in m):
        return p
    qs = sorted({a for m in p.d for a, _ in m if Atom.lst[a].kind == "Q"}, reverse=True)
    # common factor out first
    n, D = expand(p)
    if not n.d:
        return ZERO
    # D = product of Q^-k; try to divide n by each q (q may contain sqrt atoms: skip those)
    dm = dict(next(iter(D.d))) if D.d else {}
    res = dict(dm)
    for a in sorted(dm, reverse=True):
        q = Atom.lst[a].data
        while res.get(a, 0) < 0:
            r = pdivides(n, q)
            if r is None:
                break
            n = r
            res[a] += 1
            if not res[a]:
                del res[a]
    # positive Q powers (common factors) are kept as factors
    return n * Poly({tuple(sorted(res.items())): Fr(1)})


# ---------------------------------------------------------------- signs
def mono_nonneg(m):
    for a, e in m:
        if e % 2 == 0:
            continue
        if not Atom.lst[a].nonneg:
            return False
    return True


def known_nonneg(p):
    return all(c > 0 and mono_nonneg(m) for m, c in p.d.items())


def known_pos_struct(p):
    """all terms nonneg and one of them strictly positive"""
    return known_nonneg(p) and any(all(Atom.lst[a].pos for a, _ in m) for m in p.d)


# ---------------------------------------------------------------- functions
def fsqrt(c):
    c = Fr(c)
    n, d = isqrt(c.numerator), isqrt(c.denominator)
    return Fr(n, d) if n * n == c.numerator and d * d == c.denominator else None


def psqrt(p):
    """polynomial r with r^2 = p (p free of negative exponents / Q atoms), or None"""
    if len(p.d) > 1500:
        return None
    ids = sorted({a for m in p.d for a, _ in m})
    if any(e < 0 for m in p.d for _, e in m) or any(Atom.lst[a].kind in _special for a in ids):
        return None
    pos = {a: i for i, a in enumerate(ids)}

    def vec(m):
        v = [0] * len(ids)
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    P = {vec(m): c for m, c in p.d.items()}
    lead = max(P)
    if any(e % 2 for e in lead) or P[lead] < 0:
        return None
    s = fsqrt(P[lead])
    if s is None:
        return None
    lt = tuple(e // 2 for e in lead)
    R = {lt: s}
    rem = dict(P)
    del rem[lead]
    steps = 0
    while rem:
        steps += 1
        if steps > 60:
            return None
        m = max(rem)
        t = tuple(x - y for x, y in zip(m, lt))
        if min(t, default=0) < 0:
            return None
        c = rem[m] / (2 * s)
        # rem -= 2*c*t*R + c^2 t^2
        for m2, c2 in list(R.items()):
            k = tuple(x + y for x, y in zip(m2, t))
            v = rem.get(k, 0) - 2 * c * c2
            if v:
                rem[k] = v
            else:
                rem.pop(k, None)
        k = tuple(2 * x for x in t)
        v = rem.get(k, 0) - c * c
        if v:
            rem[k] = v
        else:
            rem.pop(k, None)
        if t in R:
            return None
        R[t] = c
    return Poly({tuple((ids[i], e) for i, e in enumerate(v) if e): c for v, c in R.items()})


def pabs(p):
    p = cancel(p)
    if known_nonneg(p):
        return p
    if known_nonneg(-p):
        return -p
    c, mono, prim = content(p)
    r = pc(abs(c))
    keep = []
    for a, e in mono:
        A = Atom.lst[a]
        if e % 2 == 0 or A.nonneg:
            r = r * av(A, e)
        else:
            x = av(A)
            r = r * (av(atom("A", x, x.key, nonneg=True)) ** e if e > 0 else qpow(x, e - 1) * av(atom("A", x, x.key, nonneg=True)))
    if not prim.isconst():
        if known_nonneg(prim):
            r = r * prim
        else:
            q = -prim if prim.d[max(prim.d)] < 0 else prim
            r = r * av(atom("A", q, q.key, nonneg=True))
    return r


def sqrt(p):
    p = cancel(p)
    if not p.d:
        return ZERO
    c, mono, prim = content(p)
    # powers that can be taken out
    r = ONE
    inner = ONE
    for a, e in mono:
        A = Atom.lst[a]
        h, odd = divmod(e, 2)
        if A.kind in ("S",) and e == 1:
            inner = inner * av(A)
            continue
        if h:
            x = av(A, h)
            if A.nonneg or h % 2 == 0:
                r = r * x
            else:
                r = r * pabs(x)
        if odd:
            inner = inner * av(A)
    cs = fsqrt(abs(c))
    if cs is not None:
        r = r.scale(cs)
        c = Fr(1) if c > 0 else Fr(-1)
    if not prim.isconst():
        q, _ = expand(prim)
        ps = psqrt(q) if _ == ONE else None
        if ps is not None:
            r = r * pabs(ps)
            prim = ONE
    rad = inner * prim * c
    if rad == ONE:
        return r
    if rad.isconst() and rad.cval() < 0:
        raise ValueError("sqrt of negative constant")
    # split Q atoms out of the radicand when positive
    c2, m2, pr2 = content(rad)
    if len(m2) and all(Atom.lst[a].nonneg for a, e in m2) and (not pr2.isconst() or len(m2) > 1):
        out = r
        for a, e in m2:
            out = out * satom(av(Atom.lst[a], e))
        rest = pr2 * c2
        return out * (satom(rest) if rest != ONE else ONE)
    return r * satom(rad)


def satom(q):
    if q == ONE:
        return ONE
    A = None
    # sqrt(Q(q)) is S(q)
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and Atom.lst[m[0][0]].kind == "Q":
            q = Atom.lst[m[0][0]].data
    return av(atom("S", q, q.key, nonneg=True, pos=known_pos_struct(q)))


def lead_sign(p):
    return p.d[max(p.d)] > 0


def _atan2_arg(t):
    """t == AT atom exactly?"""
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and Atom.lst[m[0][0]].kind == "AT":
            return Atom.lst[m[0][0]]
    return None


def _pi_mult(t):
    """t = r*pi -> r"""
    if not t.d:
        return Fr(0)
    if len(t.d) == 1:
        (m, c), = t.d.items()
        if m == next(iter(PI.d)):
            return c
    return None


def cospi(r):
    """cos(r pi) for 0 <= r < 2 where it is a square root of a rational"""
    s = 1
    if r > 1:
        r = 2 - r
    if r > Fr(1, 2):
        r, s = 1 - r, -1
    if r == 0:
        return pc(s)
    if r == Fr(1, 2):
        return ZERO
    if r == Fr(1, 3):
        return pc(Fr(s, 2))
    if r == Fr(1, 4):
        return sqrt(pc(2)) * Fr(s, 2)
    if r == Fr(1, 6):
        return sqrt(pc(3)) * Fr(s, 2)
    return None


def _at_multiple(t, lim, ynonneg):
    """t = c * atan2(y, x) with 0 <= c <= lim (and y structurally non-negative)"""
    if len(t.d) != 1:
        return False
    (m, c), = t.d.items()
    if not (0 <= c <= lim and len(m) == 1 and m[0][1] == 1):
        return False
    A = Atom.lst[m[0][0]]
    return A.kind == "AT" and (not ynonneg or known_nonneg(A.data[0]))


def cos(t):
    t = cancel(t)
    r = _pi_mult(t)
    if r is not None:
        r = abs(r) % 2
        v = cospi(r)
        if v is not None:
            return v
    if t.d and not lead_sign(t):
        t = -t
    A = _atan2_arg(t)
    if A is not None:
        y, x = A.data
        return x * inv(sqrt(x * x + y * y))
    return av(atom("C", t, t.key, nonneg=_at_multiple(t, Fr(1, 2), False)))


def sin(t):
    t = cancel(t)
    r = _pi_mult(t)
    if r is not None:
        s = 1 if r >= 0 else -1
        v = cospi((abs(r) - Fr(1, 2)) % 2)
        if v is not None:
            return v * s
    if t.d and not lead_sign(t):
        return -sin(-t)
    A = _atan2_arg(t)
    if A is not None:
        y, x = A.data
        return y * inv(sqrt(x * x + y * y))
    return av(atom("Z", t, t.key, nonneg=_at_multiple(t, Fr(1), True)))


def eatom(t, den):
    return atom("E", (t, den), (t.key, den), pos=True)


def exp(p):
    """product over terms; exp(log x) = x"""
    p = cancel(p)
    r = ONE
    for m, c in p.d.items():
        # c*log(q): q^c
        if len(m) == 1 and m[0][1] == 1 and Atom.lst[m[0][0]].kind == "L":
            q = Atom.lst[m[0][0]].data
            if c.denominator == 1:
                r = r * (q ** int(c) if c > 0 else inv(q) ** int(-c))
                continue
            if c.denominator in (2, 4, 8, 16):
                n = c.numerator
                d = c.denominator
                s = q
                while d > 1:
                    s = sqrt(s)
                    d //= 2
                r = r * (s ** n if n > 0 else inv(s) ** (-n))
                continue
        if m == ():
            if c.denominator == 1 and abs(c) < 10 ** 6:
                r = r * av(eatom(ONE, 1), int(c))
                continue
        t = Poly({m: Fr(1)})
        r = r * av(eatom(t, c.denominator), c.numerator)
    return r


def log(p):
    p = cancel(p)
    if p == ONE:
        return ZERO
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and len(m) == 1:
            a, e = m[0]
            A = Atom.lst[a]
            if A.kind == "S":
                return log(A.data) * Fr(e, 2)
            if A.kind == "E":
                t, den = A.data
                return t * Fr(e, den)
            if A.kind == "Q":
                return av(atom("L", A.data, A.data.key)) * e
            if e != 1 and A.nonneg:
                return log(av(A)) * e
            if e % 2 == 0:
                return log(pabs(av(A))) * e
    return av(atom("L", p, p.key))


def atan2(y, x):
    """scale out common positive monomial content"""
    y, x = cancel(y), cancel(x)
    if not y.d and x.isconst() and x.d:
        return ZERO if x.cval() > 0 else PI
    if x.d and y.d:
        c1, m1, p1 = content(y)
        c2, m2, p2 = content(x)
        d1, d2 = dict(m1), dict(m2)
        com = {a: e for a, e in d1.items() if d2.get(a) == e and (Atom.lst[a].nonneg or e % 2 == 0)}
        for a in list(d1) + list(d2):
            A = Atom.lst[a]
            if A.kind in ("S", "Q") and A.nonneg and a not in com:
                e1, e2 = d1.get(a, 0), d2.get(a, 0)
                if e1 == e2:
                    com[a] = e1
                elif A.kind == "Q" and min(e1, e2) < 0:
                    com[a] = min(e1, e2)
        if com:
            k = minv(tuple(sorted(com.items())))
            y, x = cancel(y * k), cancel(x * k)
            c1, _, _ = content(y)
    return av(atom("AT", (y, x), (y.key, x.key), nonneg=known_nonneg(y)))


SUMSQ = {}


def hypot(x, y):
    q = x * x + y * y
    if q.d:
        SUMSQ[cancel(q)] = (x, y)
    return sqrt(q)


def csqrt(x, y):
    """principal square root of x + i y as (re, im)"""
    x, y = cancel(x), cancel(y)
    u = av(atom("CR", (x, y), (x.key, y.key), nonneg=True))
    v = av(atom("CI", (x, y), (x.key, y.key)))
    return u, v


def other(name, args, nonneg=False):
    args = tuple(cancel(a) for a in args)
    return av(atom("F", (name,) + args, (name,) + tuple(a.key for a in args), nonneg=nonneg))


def poly_plain(p):
    return all(e > 0 for m in p.d for _, e in m)
