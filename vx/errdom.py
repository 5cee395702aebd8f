"""Accuracy clauses: a proved bound on |computed - exact| for code with square roots, quotients, exponentials, trigonometric functions and
logarithms, against the accuracy formula of the contract.

Every node is given (v, E, r): v its exact real value on this branch, E a bound on its absolute error in units of U = 2^-53, r a bound
on its relative error where there is one.  E is a positive combination of products of bound atoms:
   ('n', S)  the Euclidean norm of a set S of operand components (for one component its absolute value)
   ('e', k)  an exponential            ('l', k)  the absolute value of a logarithm
   ('o', a)  another non-negative term
Second-order terms are kept (U times the product of two errors), so the bounds hold as they stand, not to first order.
Assumed: the standard model of rounding without overflow or underflow, libm functions within 2 U of the exact value at their rounded
arguments (complex square root: 8 U, complex quotient and other complex functions: 16 U in norm), comparisons falling as in exact arithmetic.
"""
from fractions import Fraction as Fr
import math
from . import dag, poly as P, rdom
from .poly import Poly, Atom, ZERO, ONE, pc
from .rdom import Sp

U = Fr(1, 1 << 53)
LIB, CSQRT, CDIV = 2, 8, 16
PIUB = Fr(22, 7)
LOGMAX = 746         # |log x| for every positive double and every norm of eight of them


class Open(Exception):
    """no bound found"""


# ------------------------------------------------------------------ bounds: positive combinations of bound monomials
class B:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = d

    def __add__(self, o):
        if not isinstance(o, B):
            o = bc(o)
        d = dict(self.d)
        for m, c in o.d.items():
            d[m] = d.get(m, 0) + c
        return B(d)
    __radd__ = __add__

    def __mul__(self, o):
        if not isinstance(o, B):
            o = Fr(o)
            return B({m: c * o for m, c in self.d.items()}) if o else B({})
        r = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mono(m1, m2)
                r[m] = r.get(m, 0) + c1 * c2
        return B(r)
    __rmul__ = __mul__

    def __bool__(self):
        return bool(self.d)

    def __repr__(self):
        def at(a):
            return {"n": lambda: "|" + ",".join(sorted(a[1])) + "|", "e": lambda: f"exp{a[1]}", "l": lambda: "|log|", "o": lambda: f"[{Atom.lst[a[1]]}]"}[a[0]]()
        return " + ".join(f"{float(c):.4g}" + "".join(f" {at(a)}^{e}" for a, e in m) for m, c in self.d.items()) or "0"


def akey(a):
    return (a[0], tuple(sorted(a[1])) if a[0] == "n" else a[1])


def mono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if not d[a]:
            del d[a]
    return tidy(d)


def tidy(d):
    """norms of subsets raised to norms they are divided by"""
    neg = [a for a, e in d.items() if a[0] == "n" and e < 0]
    for a in neg:
        for b in sorted([b for b, e in d.items() if b[0] == "n" and e > 0 and b[1] < a[1]], key=akey):
            k = min(d[b], -d[a])
            if k <= 0:
                continue
            d[b] -= k
            d[a] += k
            if not d[b]:
                del d[b]
            if not d[a]:
                del d[a]
                break
    return tuple(sorted(d.items(), key=lambda x: akey(x[0])))


def bc(c):
    c = Fr(c)
    return B({(): c}) if c else B({})


ZB = B({})


def ba(a, e=1):
    return B({((a, e),): Fr(1)})


def up(c):
    """a slightly larger rational with a short numerator"""
    c = Fr(c)
    if c.denominator.bit_length() < 120:
        return c
    k = 1 << 100
    return Fr(c.numerator * k // c.denominator + 1, k)


def short(b):
    return B({m: up(c) for m, c in b.d.items()})


# ------------------------------------------------------------------ the domain on one branch
class V:
    """E may be a function, called when the absolute error is wanted"""
    __slots__ = ("v", "_E", "r", "u")

    def __init__(self, v, E, r=None, u=None):
        self.v, self._E, self.r, self.u = v, E, r, u      # u: an upper bound on |v| where the term itself gives none

    @property
    def E(self):
        if not isinstance(self._E, B):
            self._E = short(self._E())
        return self._E


class Err:
    def __init__(self, ctx, limits=(), names=()):
        self.ctx = ctx
        self.cache = {}
        self.eta = {}                 # perturbation variable -> bound on its absolute value
        self.comp = {}                # component of a complex number -> its modulus
        self.R2 = None
        self.limits = list(limits)    # (monomial, number): assumed bounds
        for x, y in names:
            self.name(x, y)

    def name(self, x, y):
        """x and y are the parts of a complex number: each is at most the modulus"""
        s = P.hypot(x, y)
        if len(s.d) == 1 and list(s.d.values()) == [1]:
            for p in (x, y):
                self.comp[P.cancel(p)] = s
                self.comp[P.cancel(-p)] = s

    # ---------------------------------------------------------------- upper bound of an exact term
    def ub(self, p):
        p = P.cancel(p)
        s = self.comp.get(p)
        if s is not None and len(p.d) > 1:
            p = s
        r = ZB
        for m, c in p.d.items():
            t = bc(abs(c))
            for a, e in m:
                t = t * self.atom(Atom.lst[a], e)
            r = r + t
        n = self.sumsq(p)
        return n if n is not None else r

    def ubp(self, x):
        """bound of a number, a term or a product of terms"""
        if isinstance(x, list):
            r = ZB
            for f in x:
                r = r + self.ubp(f)
            return r
        if isinstance(x, Prod):
            r = bc(1)
            for f in x.f:
                r = r * self.ubp(f)
            return r
        return self.ub(x) if isinstance(x, Poly) else bc(x)

    def sumsq(self, p):
        """p = sum of squares of distinct operand components, or the square of one -> a power of a norm"""
        if p.d and all(sum(e for _, e in m) == 4 for m in p.d):
            q = ZERO
            for m, c in p.d.items():
                if len(m) == 1:
                    q = q + Poly({((m[0][0], 2),): c})
            n = self.sumsq(q)
            return n * n if n is not None and not (p - q * q).d else None
        s = set()
        for m, c in p.d.items():
            if len(m) != 1 or m[0][1] != 2 or c != 1 or Atom.lst[m[0][0]].kind != "v" or Atom.lst[m[0][0]].data in self.eta:
                return None
            s.add(Atom.lst[m[0][0]].data)
        return ba(("n", frozenset(s)), 2) if s else None

    def atom(self, A, e):
        k = A.kind
        if k in ("S", "Q") and len(A.data.d) == 1 and A.data.d and not self.has_eta(A.data):
            # the root of one monomial, term by term
            (m, c), = A.data.d.items()
            f = Fr(e, 2) if k == "S" else Fr(e)
            r = bc(power(c, f))
            for a, g in m:
                r = r * self.atom(Atom.lst[a], whole(g * f))
            return r
        if not isinstance(e, int) and not (k == "A" and len(A.data.d) == 1) and k not in ("v", "Q", "S", "E", "L"):
            raise Open(f"no bound for {A}^{e}")
        if k == "v":
            if A.data in self.eta:
                if e < 0:
                    raise Open("inverse of a perturbation")
                r = bc(1)
                for _ in range(e):
                    r = r * self.eta[A.data]
                return r
            return ba(("n", frozenset([A.data])), e)
        if k == "pi":
            return bc(PIUB ** e if e > 0 else Fr(1, 3) ** -e)
        if k in ("Q", "S"):
            n = self.sumsq(A.data)
            if n is not None:
                a, f = next(iter(n.d))[0]
                return ba(a, whole(Fr(f * e, 2)) if k == "S" else f * e)
            o = P.atom("S", A.data, A.data.key, nonneg=True)
            if e > 0 and k == "S" and self.has_eta(A.data):
                return self.root(self.ub(A.data))
            return ba(("o", o.id), e if k == "S" else 2 * e)
        if k == "A":
            if len(A.data.d) == 1:
                (m, c), = A.data.d.items()
                if len(m) == 1 and m[0][1] == 1 and Atom.lst[m[0][0]].kind in "Lv" and Atom.lst[m[0][0]].data not in self.eta:
                    r = self.atom(Atom.lst[m[0][0]], e)
                    return r if abs(c) == 1 else r * power(abs(c), e)
            if e > 0 and isinstance(e, int):
                u = self.ub(A.data)
                r = bc(1)
                for _ in range(e):
                    r = r * u
                return r
            return ba(("o", A.id), e)
        if k in ("C", "Z") and e > 0:
            return bc(1)
        if k == "AT" and e > 0:
            return bc(PIUB ** e)
        if k == "E":
            return ba(("e", A.id), e)
        if k == "L" and e > 0:
            return ba(("l", A.id), e)
        if k in ("CR", "CI") and e > 0:
            x, y = A.data
            u = self.root(self.ub(P.hypot(x, y)) if not (self.has_eta(x) or self.has_eta(y)) else self.ub(x) + self.ub(y))
            r = bc(1)
            for _ in range(e):
                r = r * u
            return r
        raise Open(f"no bound for {A}^{e}")

    def has_eta(self, p):
        return any(Atom.lst[a].kind == "v" and Atom.lst[a].data in self.eta for a in P_atoms(p))

    def root(self, b):
        """square root of a bound: sum of the square roots of its terms, even powers"""
        r = ZB
        for m, c in b.d.items():
            h = []
            odd = []
            for a, e in m:
                if e % 2 == 0:
                    h.append((a, e // 2))
                elif e > 0 and a[0] == "n":
                    odd.append((a, e))
                elif a[0] == "o" and e == 1:
                    # the modulus of a polynomial of degree two: bounded by the bound of its parts
                    q = self.modulus(a[1])
                    if q is None:
                        raise Open("square root of a bound")
                    return self.root(bc(up(c)) * q * B({tuple(x for x in m if x[0] != a): Fr(1)}) + B({k: v for k, v in b.d.items() if k != m}))
                else:
                    raise Open("square root of a bound")
            if odd:
                # |x| |y| <= |x,y|^2 and so on: raise to the norm of all of them
                s = frozenset().union(*[a[1] for a, _ in odd])
                e = sum(e for _, e in odd)
                if e % 2:
                    raise Open("square root of a bound of odd degree")
                h = list(mono(tuple(h), ((("n", s), e // 2),)))
            f = Fr(math.isqrt(int(c * (1 << 80)) + 1) + 1, 1 << 40)
            r = r + B({tuple(sorted(h, key=lambda x: akey(x[0]))): f})
        return r

    def modulus(self, aid):
        q = Atom.lst[aid].data
        xy = P.SUMSQ.get(P.cancel(q))
        return None if xy is None else self.plain(xy[0]) + self.plain(xy[1])

    def plain(self, p):
        """bound without the use of a modulus"""
        r = ZB
        for m, c in P.cancel(p).d.items():
            t = bc(abs(c))
            for a, e in m:
                t = t * self.atom(Atom.lst[a], e)
            r = r + t
        return r

    # ---------------------------------------------------------------- numeric bound
    def number(self, b, what="a bound"):
        t = Fr(0)
        for m, c in b.d.items():
            t += c * self.mnum(m, what)
        return t

    def mnum(self, m, what):
        d = dict(m)
        f = Fr(1)
        for lm, k in self.limits:
            if len(lm) == 1 and lm[0][0][0] == "n" and lm[0][1] == 1:
                for a in [a for a in d if a[0] == "n" and a[1] <= lm[0][0][1] and d[a] > 0]:
                    f *= power(k, d.pop(a))
                continue
            while lm:
                g = absorb(d, lm)
                if g is None:
                    break
                d = dict(tidy(g))
                f *= k
        for a, e in list(d.items()):
            if a[0] == "l" and e > 0:
                f *= LOGMAX ** e
                del d[a]
        if d:
            raise Open(f"{what} is not bounded by a number: {B({tuple(d.items()): Fr(1)})}")
        return f

    # ---------------------------------------------------------------- values
    def of(self, n):
        r = self.cache.get(n.id)
        if r is None:
            r = self._of(n)
            if isinstance(r._E, B):
                r._E = short(r._E)
            if r.r is not None:
                r.r = up(r.r)
            self.cache[n.id] = r
        return r

    def relv(self, v, r):
        if not v.d:
            return V(ZERO, ZB, Fr(0))
        return V(v, ZB if not r else lambda: self.ub(v) * (Fr(r) / U), Fr(r))

    def rounded(self, v, E, r=None, k=1, u=None):
        """the result of one operation whose exact value on the rounded operands is off by E (relative: r), rounded k times"""
        if r is not None:
            return self.relv(v, (1 + r) * (1 + k * U) - 1)
        if not v.d and not E:
            return V(v, ZB, Fr(0))
        return V(v, E * (1 + k * U) + (self.ub(v) if u is None else u) * k, None, u)

    def _of(self, n):
        op = n.op
        ctx = self.ctx
        if op == "var":
            v = ctx.ev(n)
            if isinstance(v, Sp):
                raise Open("special value")
            return V(v, ZB, Fr(0))
        if op == "const":
            v = ctx.ev(n)
            if isinstance(v, Sp):
                raise Open("special value")
            exact = v.isconst() and v.cval() == Fr(dag.cval(n))
            return V(v, ZB, Fr(0)) if exact else self.relv(v, U)
        if op == "fneg":
            a = self.of(n.a[0])
            return V(-a.v, a._E, a.r, a.u)
        if op == "ite":
            return self.of(n.a[1] if ctx.cond(n.a[0]) else n.a[2])
        if op in ("fadd", "fsub"):
            a, b = self.of(n.a[0]), self.of(n.a[1])
            s = 1 if op == "fadd" else -1
            v = a.v + b.v * s
            v = P.cancel(v)
            if self.zero(a):
                return V(v, b._E, b.r, b.u)
            if self.zero(b):
                return V(v, a._E, a.r, a.u)
            r = None
            if a.r is not None and b.r is not None:
                if a.r == 0 and b.r == 0:
                    r = Fr(0)
                else:
                    sa, sb = self.sign(a.v), self.sign(b.v)
                    if sa and sa == sb * s:
                        r = max(a.r, b.r)
            return self.rounded(v, a.E + b.E if r is None else ZB, r, u=self.usum(a, b, lambda x, y: x + y))
        if op == "fmul":
            a, b = self.of(n.a[0]), self.of(n.a[1])
            v = a.v * b.v
            for x, y in ((a, b), (b, a)):
                if x.r == 0 and x.v.isconst() and x.v.d and pow2(x.v.cval()):
                    return self.relv(v, y.r) if y.r is not None else V(v, y.E * abs(x.v.cval()), None, None if y.u is None else y.u * abs(x.v.cval()))
                if self.zero(x):
                    return V(ZERO, ZB, Fr(0))
            r = (1 + a.r) * (1 + b.r) - 1 if a.r is not None and b.r is not None else None
            return self.rounded(v, self.prod(a, b) if r is None else ZB, r, u=self.usum(a, b, lambda x, y: x * y))
        if op == "fdiv":
            a, b = self.of(n.a[0]), self.of(n.a[1])
            return self.quot(a, b)
        if op == "fn":
            return self.fn(n.a[0], n.a[1:], n)
        raise Open("error of " + op)

    def zero(self, a):
        return a.r == 0 and not a.v.d

    def prod(self, a, b):
        return self.uv(a) * b.E + self.uv(b) * a.E + a.E * b.E * U

    def uv(self, a):
        return self.ub(a.v) if a.u is None else a.u

    def usum(self, a, b, f):
        return None if a.u is None and b.u is None else short(f(self.uv(a), self.uv(b)))

    def quot(self, a, b):
        rel = None
        br = b.r
        if br is None:
            rel = b.E * self.ub(P.inv(b.v))
            br = self.number(rel, "the relative error of a divisor") * U
        if br >= Fr(1, 4):
            raise Open("divisor too inaccurate")
        d = br / (1 - br)
        v = a.v * P.inv(b.v)
        if br == 0 and b.v.isconst() and pow2(b.v.cval()):
            return self.relv(v, a.r) if a.r is not None else V(v, a.E * abs(1 / b.v.cval()))
        r = (1 + a.r) * (1 + d) - 1 if a.r is not None and (rel is None or not a.v.d) else None
        if r is not None:
            return self.rounded(v, ZB, r)
        i = V(P.inv(b.v), self.ub(P.inv(b.v)) * (d / U if rel is None else rel * (1 / (1 - br))), d)
        return self.rounded(v, self.prod(a, i))

    def sign(self, v):
        s = rdom.sign_known(v)
        if s is not None and s <= {0, 1}:
            return 1
        if s is not None and s <= {0, -1}:
            return -1
        if self.has_eta(v):
            return 0
        for rl, sg in (("ge", 1), ("le", -1)):
            st, _ = self.ctx.refute(rl, v)
            if st == "proved":
                return sg
        return 0

    def rooted(self, args):
        """the operand of a complex square root, if that is what the two nodes hold"""
        a, b = args
        if a.op == b.op == "fn" and a.a[0] == "csqrt_re" and b.a[0] == "csqrt_im" and a.a[1:] == b.a[1:]:
            return [self.of(x) for x in a.a[1:]]

    def entire(self, z, n, k, rounds):
        """cosh w (k = 2) or sinh w / w (k = 6) at w = the computed root of z.  Both are entire functions f of z, and with
        R >= |Re w|: |f| <= cosh R, |f'| <= cosh(R) / k.  The computed root is the exact root of z + h, with
        |h| <= the errors of z + |z| ((1 + CSQRT U)^2 - 1), and |Re root(z + h)| <= R + sqrt|h|."""
        x, y = z
        R2 = self.R2
        if R2 is None:
            raise Open("hyperbolic functions of inaccurate complex numbers")
        ctx = self.ctx
        for p in (R2, R2 * 2 - x.v, R2 * (R2 - x.v) * 4 - y.v * y.v):
            if not (rdom.sign_known(p) or {-1}) <= {0, 1} and not gram(p) and ctx.refute("ge", p)[0] != "proved":
                raise Open("real part of the root")
        h = (x.E + y.E) * (1 + 20 * U) + (self.ub(x.v) + self.ub(y.v)) * (2 * CSQRT + 1)
        hn = self.number(h, "the error of the operand of a root") * U
        if hn > Fr(1, 1 << 20):
            raise Open("the operand of a root is too inaccurate")
        c = self.ub(P.exp(P.sqrt(R2)))                      # cosh R <= exp R;  exp sqrt(2^-20) < 1 + 2^-9
        return V(ctx.ev(n), h * Fr(1, k) * c * Fr(513, 512) + c * (rounds * Fr(513, 512)), None, c)

    def fn(self, nm, args, n):
        ctx = self.ctx
        if nm == "fabs":
            a = self.of(args[0])
            return V(P.pabs(a.v), a._E, a.r)
        if nm == "sqrt":
            a = self.of(args[0])
            if a.r is None:
                raise Open("square root of an inaccurate number")
            return self.relv(P.sqrt(a.v), (1 + a.r) * (1 + U) - 1)
        if nm == "hypot":
            a, b = self.of(args[0]), self.of(args[1])
            v = P.hypot(a.v, b.v)
            self.name(a.v, b.v)
            r = max(a.r, b.r) if a.r is not None and b.r is not None else None
            return self.rounded(v, a.E + b.E if r is None else ZB, r, LIB)
        if nm == "fma":
            a, b, c = (self.of(x) for x in args)
            v = a.v * b.v
            r = None
            if None not in (a.r, b.r, c.r):
                p = (1 + a.r) * (1 + b.r) - 1
                if not p and not c.r:
                    r = Fr(0)
                else:
                    sp = self.sign(v)
                    r = max(p, c.r) if sp and sp == self.sign(c.v) else None
            return self.rounded(P.cancel(v + c.v), self.prod(a, b) + c.E if r is None else ZB, r)
        if nm in ("sin", "cos"):
            a = self.of(args[0])
            v = (P.sin if nm == "sin" else P.cos)(a.v)
            E = a.E * (1 + LIB * U) + bc(LIB)
            return V(v, E)
        if nm == "exp":
            a = self.of(args[0])
            v = P.exp(a.v)
            if a.E:
                e = self.number(a.E, "the error of an exponent") * U
                if e > Fr(1, 1 << 20):
                    raise Open("exponent too inaccurate")
                f = 1 + e + e * e
                return V(v, self.ub(v) * (a.E * f * (1 + LIB * U) + bc(LIB)))
            return self.relv(v, LIB * U)
        if nm == "log":
            a = self.of(args[0])
            if a.r is None or a.r > Fr(1, 4):
                raise Open("logarithm of an inaccurate number")
            v = P.log(a.v)
            return V(v, bc(a.r / (1 - a.r) / U * (1 + LIB * U)) + self.ub(v) * LIB)
        if nm == "atan2":
            a, b = self.of(args[0]), self.of(args[1])
            v = ctx.fn("atan2", [a.v, b.v])
            if a.r is None or b.r is None or max(a.r, b.r) > Fr(1, 16):
                raise Open("atan2 of inaccurate numbers")
            c = (a.r + b.r) / (1 - b.r)
            c = c / (1 - c)
            if self.zero(a):
                return V(v, ZB, Fr(0)) if not v.d else self.relv(v, LIB * U)
            return self.relv(v, (1 + c) * (1 + LIB * U) - 1)
        if nm in ("csqrt_re", "csqrt_im"):
            x, y = self.of(args[0]), self.of(args[1])
            if self.zero(y):
                if x.r is None:
                    raise Open("square root of an inaccurate number")
                pos = not x.v.d or self.ctx.truth("ge", x.v)
                s = (1 + x.r) * (1 + LIB * U) - 1
                return self.relv(P.sqrt(x.v if pos else -x.v), s) if pos == (nm == "csqrt_re") else V(ZERO, ZB, Fr(0))
            u, w = P.csqrt(self.perturbed(x, args[0]), self.perturbed(y, args[1]))
            v = u if nm == "csqrt_re" else w
            if not v.d:
                return V(v, ZB, Fr(0))
            return self.relv(v, CSQRT * U)
        if nm in ("cexp_re", "cexp_im"):
            x, y = self.of(args[0]), self.of(args[1])
            h = x.E + y.E
            e = self.number(h, "the error of an exponent") * U
            if e > Fr(1, 1 << 20):
                raise Open("exponent too inaccurate")
            f = 1 + e + e * e
            v = P.exp(x.v) * (P.cos(y.v) if nm == "cexp_re" else P.sin(y.v))
            return V(v, self.ub(P.exp(x.v)) * (h * f * (1 + CDIV * U) + bc(CDIV * f)))
        if nm in ("ccosh_re", "ccosh_im", "csinh_re", "csinh_im"):
            z = self.rooted(args) if nm.startswith("ccosh") else None
            if z is not None and z[1].v.d:
                return self.entire(z, n, 2, CDIV)
            x, y = self.of(args[0]), self.of(args[1])
            if not self.zero(x):
                raise Open("hyperbolic functions of inaccurate complex numbers")
            if nm in ("ccosh_im", "csinh_re"):
                return V(ZERO, ZB, Fr(0))
            v = P.cos(y.v) if nm == "ccosh_re" else P.sin(y.v)
            return V(v, y.E * (1 + CDIV * U) + bc(CDIV))
        if nm in ("cdiv_re", "cdiv_im"):
            s, t, c, d = args
            if s.op == t.op == "fn" and s.a[0] == "csinh_re" and t.a[0] == "csinh_im" and tuple(s.a[1:]) == tuple(t.a[1:]) == (c, d):
                z = self.rooted((c, d))
                if z is not None and z[1].v.d:
                    return self.entire(z, n, 6, 2 * CDIV + 1)
            x, y, c, d = (self.of(a) for a in args)
            den = c.v * c.v + d.v * d.v
            self.name(x.v, y.v)
            self.name(c.v, d.v)
            i = P.inv(den)
            h = P.inv(P.hypot(c.v, d.v) if d.v.d else c.v if self.sign(c.v) == 1 else P.pabs(c.v))
            rel = (c.E + d.E) * self.ub(h)
            r2 = self.number(rel, "the relative error of a complex divisor") * U
            if r2 >= Fr(1, 4):
                raise Open("complex divisor too inaccurate")
            dd = r2 / (1 - r2)
            rel = rel * (1 / (1 - r2))
            v = (x.v * c.v + y.v * d.v) * i if nm == "cdiv_re" else (y.v * c.v - x.v * d.v) * i
            if not d.v.d:
                v = (x.v if nm == "cdiv_re" else y.v) * P.inv(c.v)
            z = self.ub(P.hypot(x.v, y.v) if y.v.d and x.v.d else P.pabs(x.v + y.v))
            q = z * self.ub(h)
            E = (q * rel + (x.E + y.E) * self.ub(h) * (1 + dd))
            return V(P.cancel(v), E * (1 + CDIV * U) + q * CDIV)
        raise Open("error of " + nm)

    def perturbed(self, a, n):
        """the rounded operand as the exact one plus a bounded variable"""
        if not a.E:
            return a.v
        k = f"_h{n.id}"
        self.eta[k] = a.E * U
        return a.v + P.var(k)

    # ---------------------------------------------------------------- the accuracy clause
    def within(self, E, T, nm):
        """E <= T, both bounds"""
        use = dict(T.d)
        left = {m: Fr(0) for m in T.d}
        for m, c in E.d.items():
            best = min(self.targets(m, T), key=lambda x: x[0], default=None)
            if best is None:
                raise Open(f"{nm}: the error term {B({m: c})} is not covered by {T}")
            left[best[1]] += c * best[0]
        for t, c in left.items():
            if c > use[t]:
                raise Open(f"{nm}: {float(c):.6g} exceeds {float(use[t]):.6g} in {B({t: Fr(1)})}: error {E}")

    def targets(self, m, T):
        for t in T.d:
            if raises(m, t):
                yield (Fr(1), t)
                return
        # numeric limits for what is left over
        for t in T.d:
            rest = dict(m)
            ok = True
            for a, e in t:
                if a[0] == "n":
                    need = e
                    if need > 0:
                        for b in sorted([b for b, f in rest.items() if b[0] == "n" and f > 0 and b[1] <= a[1]], key=akey):
                            k = min(need, rest[b])
                            rest[b] -= k
                            need -= k
                            if not rest[b]:
                                del rest[b]
                        ok &= need == 0
                    else:
                        rest[a] = rest.get(a, 0) - e
                else:
                    rest[a] = rest.get(a, 0) - e
            if not ok:
                continue
            rest = {a: e for a, e in rest.items() if e}
            try:
                yield (self.mnum(tuple(rest.items()), ""), t)
            except Open:
                continue


def absorb(d, lm):
    """what is left of the monomial d once lm is taken out of it, norms of subsets standing for norms; None if it does not contain lm"""
    g = dict(d)
    for a, e in lm:
        if a[0] == "n" and e > 0:
            for b in sorted([b for b in g if b[0] == "n" and g[b] > 0 and b[1] <= a[1]], key=akey):
                k = min(e, g[b])
                g[b] -= k
                e -= k
                if not g[b]:
                    del g[b]
                if not e:
                    break
            if e:
                return None
        else:
            if not (g.get(a, 0) >= e if e > 0 else g.get(a, 0) <= e):
                return None
            g[a] -= e
            if not g[a]:
                del g[a]
    return g


def raises(m, t):
    """monomial m <= monomial t by raising norms of subsets"""
    if m == t:
        return True
    d, g = dict(m), dict(t)
    for a in list(g):
        if a in d:
            k = min(d[a], g[a]) if d[a] > 0 and g[a] > 0 else max(d[a], g[a]) if d[a] < 0 and g[a] < 0 else 0
            d[a] -= k
            g[a] -= k
    d = {a: e for a, e in d.items() if e}
    g = {a: e for a, e in g.items() if e}
    if any(a[0] != "n" or e < 0 for a, e in list(d.items()) + list(g.items())):
        return False
    for a, e in g.items():
        for b in sorted([b for b in d if b[1] <= a[1]], key=akey):
            k = min(e, d[b])
            d[b] -= k
            e -= k
            if not d[b]:
                del d[b]
        if e:
            return False
    return not d


def whole(e):
    return int(e) if e == int(e) else Fr(e)


def power(c, f):
    """an upper bound on c^f for half-integral f"""
    c, f = Fr(c), Fr(f)
    if f < 0:
        c, f = 1 / c, -f
    g = 2 * f
    assert c > 0 and g.denominator == 1
    r = c ** (int(g) // 2)
    if int(g) % 2:
        k = 1 << 120
        r *= Fr(math.isqrt(c.numerator * k * k // c.denominator + 1) + 1, k)
    return r


def pow2(c):
    c = abs(Fr(c))
    return c and (c.numerator & (c.numerator - 1)) == 0 and (c.denominator & (c.denominator - 1)) == 0


def gram(p):
    """p = c (|u|^2 |v|^2 - (u.v)^2), shown as c |u x v|^2: a combination of squares of differences of products"""
    q = p
    vs = sorted({Atom.lst[a].id for a in P_atoms(p)})
    if any(Atom.lst[a].kind != "v" for a in vs) or len(vs) > 8 or not vs:
        return False
    at = {a: Poly({((a, 1),): Fr(1)}) for a in vs}
    for m, c in list(p.d.items()):
        # a product of four distinct operands with a negative coefficient comes from a square of a difference
        if len(m) == 4 and c < 0 and m in q.d:
            a, b, g, d = [x for x, _ in m]
            for (i, j), (k, l) in (((a, b), (g, d)), ((a, g), (b, d)), ((a, d), (b, g))):
                if all(q.d.get(tuple(sorted(((x, 2), (y, 2)))), 0) >= -c / 2 for x, y in ((i, j), (k, l))):
                    t = at[i] * at[j] - at[k] * at[l]
                    q = q - t * t * (-c / 2)
                    break
            else:
                return False
    return all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in q.d.items())


def P_atoms(p):
    return rdom.atoms_of(p)


# ------------------------------------------------------------------ results as numbers with an error, for postconditions over the result
class EN:
    __slots__ = ("x", "er")

    def __init__(self, x, er):
        self.x, self.er = x, er

    def co(self, o):
        return o if isinstance(o, EN) else EN(V(o if isinstance(o, Poly) else pc(Fr(o)), ZB, Fr(0)), self.er)

    def __add__(self, o):
        o = self.co(o)
        return EN(V(self.x.v + o.x.v, self.x.E + o.x.E), self.er)
    __radd__ = __add__

    def __neg__(self):
        return EN(V(-self.x.v, self.x.E), self.er)

    def __sub__(self, o):
        return self + (-self.co(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        o = self.co(o)
        return EN(V(self.x.v * o.x.v, short(self.er.prod(self.x, o.x))), self.er)
    __rmul__ = __mul__

    def __bool__(self):
        return bool(self.x.v.d) or bool(self.x.E)


# ------------------------------------------------------------------ deciding one accuracy clause
def result(er, x, want, ctx):
    d = P.cancel(x.v - want)
    if d.d:
        d = P.expand(d)[0] if P.is_zero(d) else d
    if not d.d or P.is_zero(d):
        return x.E
    if not er.has_eta(d) and ctx.refute("eq", d)[0] == "proved":
        return x.E
    n, D = P.expand(d)
    if D == ONE:
        d = n
    return x.E + er.ub(d) * (1 / U)


def check(ctx, c, K, vals, args, want):
    """raises Open where the clause is not shown on this branch"""
    from .core import parts
    er = Err(ctx, (), [(x[0], x[7]) for x in (c.accnames(K, *args) if c.accnames else ())])
    acc = er.ubp(c.acc(EK(K, er), *args))
    for t, k in (c.acclim(EK(K, er), *args) if c.acclim else ()):
        b = er.ubp(t)
        if not b.d:
            continue
        if len(b.d) != 1:
            raise Open("limit")
        (m, f), = b.d.items()
        er.limits.append((m, Fr(k) / f))
    er.R2 = c.accre(K, *args) if c.accre else None
    xs = [er.of(v) for v in vals]
    worst = {}
    if c.ens:
        ek = EK(K, er)
        g = [EN(x, er) for x in xs]
        from .core import Any
        e = c.ens(ek, g, *args)
        for alt in (list(e) if isinstance(e, Any) else [e]):
            try:
                for nm, rel, term, scale in alt:
                    t = term.x if isinstance(term, EN) else V(term, ZB)
                    if rel in ("ge", "gt") and t.r is not None and t.r < 1:
                        continue                # the sign of the result is right
                    T = acc * er.ubp(scale)
                    er.within(result(er, t, ZERO, ctx) if rel == "eq" else t.E, T, nm)
                return
            except Open as o:
                err = o
        raise err
    from .core import Any
    err = None
    for w in (list(want) if isinstance(want, Any) else [want]):
        try:
            flat = [x for p in parts(w, 2 if c.ret == "md" else 1) for x in (p or [None] * 8)]
            for i, (x, y) in enumerate(zip(xs, flat)):
                if y is None:
                    continue
                er.within(result(er, x, y, ctx), acc, f"component {i}")
            return
        except Open as o:
            err = o
    raise err


class Prod:
    def __init__(self, *f):
        self.f = f


class EK:
    """the arithmetic of the specifications over results that carry an error: operands stay exact terms"""

    def __init__(self, K, er):
        self.k, self.er = K, er
        self.zero, self.one, self.pi = K.zero, K.one, K.pi

    def __getattr__(self, n):
        return getattr(self.k, n)

    def prod(self, *f):
        return Prod(*f)

    def sqrt(self, p):
        if isinstance(p, EN):
            raise Open("square root of a result")
        return self.k.sqrt(p)
