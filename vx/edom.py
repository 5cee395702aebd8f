"""Rounding contracts: how far the floating-point value of a node can be from its exact value.

ev(node)  = (A, k): the computed value differs from the exact one by at most gamma_k * A, with gamma_k = k u / (1 - k u), where A
            is a polynomial with non-negative coefficients in the absolute values of the inputs (standard model of rounding;
            overflow and underflow set aside; the real value itself is checked separately).
            scaled: some factor other than 0, +1, -1 was applied exactly (a power of two).
rel(node) = k: the computed value differs from the exact one by a relative error of at most gamma_k, or None.
"""
from fractions import Fraction as Fr
import math
from . import dag, poly as P, rdom
from .poly import Poly, Atom, pc, ZERO, ONE
from .ir import Unsupported


class E:
    __slots__ = ("A", "k", "scaled")

    def __init__(self, A, k, scaled=False):
        self.A, self.k, self.scaled = A, k, scaled


def majorant(p):
    return Poly({m: abs(c) for m, c in p.d.items()})


def coef_le(a, b):
    return all(c <= b.d.get(m, 0) for m, c in a.d.items())


def poly_only(p):
    return all(e > 0 and Atom.lst[a].kind == "v" for m in p.d for a, e in m)


def pow2(x):
    return x != 0 and math.frexp(abs(x))[0] == 0.5


def ev(ctx, n):
    key = ("e", n.id)
    r = ctx.cache.get(key)
    if r is None:
        r = _ev(ctx, n)
        ctx.cache[key] = r
    return r


def _ev(ctx, n):
    op = n.op
    v = ctx.ev(n)
    if isinstance(v, rdom.Sp):
        raise Unsupported("rounding of a special value")
    if not v.d and op in ("var", "const", "fmul"):
        if op != "fmul" or any(not isinstance(ctx.ev(x), rdom.Sp) and not ctx.ev(x).d and ev(ctx, x).k == 0 for x in n.a[:2]):
            return E(ZERO, 0)
    if op == "var":
        return E(majorant(v), 0)
    if op == "const":
        exact = v.isconst() and v.cval() == Fr(dag.cval(n))
        return E(pc(abs(Fr(dag.cval(n)))), 0 if exact else 1)
    if op in ("fadd", "fsub", "fmul"):
        a, b = ev(ctx, n.a[0]), ev(ctx, n.a[1])
        prec = n.a[2] if len(n.a) > 2 else 53
        one = 1 if prec == 53 else 1 << 29
        if op == "fmul":
            va, vb = ctx.ev(n.a[0]), ctx.ev(n.a[1])
            for x, vx, y in ((a, va, b), (b, vb, a)):
                if x.k == 0 and vx.isconst() and vx.d and pow2(float(vx.cval())) and Fr(float(vx.cval())) == vx.cval():
                    return E(x.A * y.A, y.k, y.scaled or abs(vx.cval()) != 1)
            return E(a.A * b.A, a.k + b.k + one, a.scaled or b.scaled)
        sc = a.scaled or b.scaled
        if not a.A.d:
            return E(b.A, b.k, sc)
        if not b.A.d:
            return E(a.A, a.k, sc)
        if not v.d and a.k == 0 and b.k == 0:
            return E(ZERO, 0, sc)       # exact cancellation of two exactly held numbers
        return E(a.A + b.A, max(a.k, b.k) + one, sc)
    if op == "fdiv":
        a, b = ev(ctx, n.a[0]), ev(ctx, n.a[1])
        vb = ctx.ev(n.a[1])
        if b.k == 0 and vb.isconst() and vb.d:
            c = vb.cval()
            p2 = pow2(float(c)) and Fr(float(c)) == c
            return E(a.A * pc(abs(1 / c)), a.k + (0 if p2 else 1), a.scaled or abs(c) != 1)
        raise Unsupported("rounding of a quotient")
    if op == "fneg":
        return ev(ctx, n.a[0])
    if op == "fptrunc":
        a = ev(ctx, n.a[0])
        return E(a.A, a.k + (1 << 29), a.scaled)
    if op == "ite":
        return ev(ctx, n.a[1] if ctx.cond(n.a[0]) else n.a[2])
    if op == "fn" and n.a[0] == "fabs":
        return ev(ctx, n.a[1])
    if op == "fn" and n.a[0] == "fma":
        a, b, c = (ev(ctx, x) for x in n.a[1:])
        return E(a.A * b.A + c.A, max(a.k + b.k, c.k) + 1, a.scaled or b.scaled or c.scaled)
    if op == "spec":
        c = ctx.contracts[n.a[0]]
        if c.poly:
            return spec_e(ctx, c, n)
    raise Unsupported("rounding of " + op + (" " + str(n.a[0]) if op == "fn" else ""))


def spec_e(ctx, c, n):
    """rounding of a callee through its rounding contract (64 roundings over 4 times its terms, or the stated count)"""
    from .core import Maj, MK
    es = [ev(ctx, x) for x in n.a[2:]]
    k = max([e.k for e in es] or [0])
    want = c.spec(MK(), *c.split_args([Maj(e.A) for e in es], MK.zero))
    lim = c.roundings
    if lim is None:
        raise Unsupported("rounding through a callee contract")
    return E(want[n.a[1]].p, k + lim, any(e.scaled for e in es))


def rel(ctx, n):
    key = ("r", n.id)
    if key in ctx.cache:
        return ctx.cache[key]
    r = _rel(ctx, n)
    ctx.cache[key] = r
    return r


def nonneg(ctx, v):
    s = rdom.sign_known(v)
    if s is not None and s <= {0, 1}:
        return 1
    if s is not None and s <= {0, -1}:
        return -1
    for rl, sg in (("ge", 1), ("le", -1)):
        st, _ = ctx.refute(rl, v)
        if st == "proved":
            return sg
    return 0


def _rel(ctx, n):
    op = n.op
    v = ctx.ev(n)
    if isinstance(v, rdom.Sp):
        return None
    if op == "var":
        return 0
    if op == "const":
        return 0 if v.isconst() and v.cval() == Fr(dag.cval(n)) else 1
    if op in ("fmul", "fdiv"):
        a, b = rel(ctx, n.a[0]), rel(ctx, n.a[1])
        if a is None or b is None:
            return None
        return a + b + 1
    if op in ("fadd", "fsub"):
        va, vb = ctx.ev(n.a[0]), ctx.ev(n.a[1])
        a, b = rel(ctx, n.a[0]), rel(ctx, n.a[1])
        if a is None or b is None:
            return None
        if not va.d:
            return b
        if not vb.d:
            return a
        if a == 0 and b == 0:
            return 1
        sa, sb = nonneg(ctx, va), nonneg(ctx, vb)
        if op == "fsub":
            sb = -sb
        if sa and sa == sb:
            return max(a, b) + 1
        return None
    if op == "fneg":
        return rel(ctx, n.a[0])
    if op == "fptrunc":
        a = rel(ctx, n.a[0])
        return None if a is None else a + (1 << 29)
    if op == "ite":
        return rel(ctx, n.a[1] if ctx.cond(n.a[0]) else n.a[2])
    if op == "fn":
        nm = n.a[0]
        if nm == "fabs":
            return rel(ctx, n.a[1])
        if nm == "sqrt":
            a = rel(ctx, n.a[1])
            return None if a is None else a + 1
        if nm == "hypot":
            a, b = rel(ctx, n.a[1]), rel(ctx, n.a[2])
            return None if a is None or b is None else max(a, b) + 2
        if nm == "fma":
            a, b, c = (rel(ctx, x) for x in n.a[1:])
            va, vb, vc = (ctx.ev(x) for x in n.a[1:])
            if a is None or b is None or c is None or any(isinstance(x, rdom.Sp) for x in (va, vb, vc)):
                return None
            if a == b == c == 0 or not vc.d:
                return a + b + 1
            if not (va * vb).d:
                return c
            sp = nonneg(ctx, va * vb)
            return max(a + b, c) + 1 if sp and sp == nonneg(ctx, vc) else None
        return None
    if op == "spec":
        c = ctx.contracts[n.a[0]]
        if c.relative:
            rs = [rel(ctx, x) for x in n.a[2:]]
            if any(r is None for r in rs):
                return None
            if c.relative is True and any(rs):
                return None
            return 12
    return None
