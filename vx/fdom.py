"""The floating-point domain: what the code computes on every IEEE double, including NaN, infinities, subnormals and both zeros.

simp(n, env)   partial evaluation of a DAG with some variables replaced by constants (NaN-propagation is decided here)
Enc            translation to z3's theory of floating point.  With exact=False the results of arithmetic and of libm calls are
               unconstrained except for axioms that hold in IEEE-754 / C11 Annex F, so 'unsat' is a proof; with exact=True +,-,*,/
               and sqrt are the IEEE operations themselves, so 'sat' is an input on which the obligation fails.
"""
import math, struct, time
import z3
from . import dag
from .dag import N, const, isconst, cval, ITE, NOT, AND, OR, XOR
from .ir import Unsupported

F = z3.Float64()
RNE = z3.RNE()
NANC = const(float("nan"))
MIN = 2.0 ** -1022


class Stats:
    q = 0
    t = 0.0


STATS = Stats()
NANPROP = {"sqrt", "sin", "cos", "tan", "exp", "log", "atan2", "atan", "asin", "acos", "sinh", "cosh", "tanh", "log1p", "expm1", "floor",
           "ceil", "trunc", "round", "rint", "nearbyint", "cbrt", "exp2", "log2", "log10", "fma", "fmod", "remainder", "fdim", "fabs",
           "asinh", "acosh", "atanh"}


def isnan_c(n):
    return isinstance(n, N) and n.op == "const" and cval(n) != cval(n)


def simp(n, env, cache):
    """rebuild n with variables in env (name -> node) replaced, folding what becomes known"""
    for x in dag.walk([n]):
        if x.id not in cache:
            cache[x.id] = _simp(x, env, cache)
    return cache[n.id]


def _simp(n, env, c):
    op = n.op
    a = [c[x.id] if isinstance(x, N) else x for x in n.a]
    if op == "var":
        return env.get(n.a[0], n)
    if op in ("const", "true", "false", "iconst", "ivar", "undef"):
        return n
    if op in ("fadd", "fsub", "fmul", "fdiv"):
        x, y = a[0], a[1]
        if isnan_c(x) or isnan_c(y):
            return NANC
        if isconst(x) and isconst(y) and (len(a) < 3 or a[2] == 53):
            r = fold(op, cval(x), cval(y))
            if r is not None:
                return const(r)
        return dag.mk(op, "d", *a)
    if op == "fneg":
        return a[0] if isnan_c(a[0]) else dag.fneg(a[0])
    if op == "fptrunc":
        return NANC if isnan_c(a[0]) else dag.mk(op, "d", *a)
    if op == "fn":
        nm, xs = a[0], a[1:]
        if nm in NANPROP and any(isnan_c(x) for x in xs):
            return NANC
        if nm == "fabs" and isconst(xs[0]):
            return const(abs(cval(xs[0])))
        if nm in ("hypot", "csqrt_re", "csqrt_im", "cexp_re", "cexp_im", "ccosh_re", "ccosh_im", "csinh_re", "csinh_im") and all(
                isnan_c(x) for x in xs):
            return NANC
        if nm in ("cdiv_re", "cdiv_im") and (all(isnan_c(x) for x in xs[:2]) and not any(maybe_inf(x) for x in xs[2:])):
            return NANC
        return dag.mk("fn", "d", *a)
    if op == "ite":
        return ITE(*a)
    if op == "not":
        return NOT(a[0])
    if op == "and":
        return AND(*a)
    if op == "or":
        return OR(*a)
    if op == "xor":
        return XOR(*a)
    if op == "fcmp":
        return dag.fcmp(*a)
    if op == "ford":
        if isconst(a[0]):
            return dag.boolc(not isnan_c(a[0]))
        return dag.mk("ford", "b", a[0])
    if op == "fclass":
        return dag.fclass(*a)
    if op == "fsign":
        if isconst(a[0]) and not isnan_c(a[0]):
            return dag.boolc(bool(a[0].a[0] >> 63))
        return n if a[0] is n.a[0] else dag.mk("fsign", "b", a[0])
    if op == "zextb":
        return dag.zextb(n.s[1], a[0])
    if op == "ibin":
        return dag.ibin(*a)
    if op == "icast":
        return dag.icast(a[0], n.s[1], a[1])
    if op == "icmp":
        return dag.icmp(*a)
    if op == "bits":
        return n if a[0] is n.a[0] or isnan_c(a[0]) and False else dag.bits(a[0])
    if op == "frombits":
        return dag.frombits(a[0])
    return dag.mk(op, n.s, *a)


def maybe_inf(x):
    return not (isconst(x) and math.isfinite(cval(x)))


def fold(op, x, y):
    try:
        if op == "fadd":
            return x + y
        if op == "fsub":
            return x - y
        if op == "fmul":
            return x * y
        if y == 0:
            if x == 0 or x != x:
                return math.nan
            return math.copysign(math.inf, x) * math.copysign(1, y)
        return x / y
    except OverflowError:
        return None


def fpc(x):
    return z3.fpToFP(z3.BitVecVal(dag.f2bits(x), 64), F)


ZERO = z3.FPVal(0.0, F)
ONEF = z3.FPVal(1.0, F)


def valid(x):
    return z3.Or(z3.fpIsZero(x), z3.fpIsNormal(x))


def finite(x):
    return z3.Not(z3.Or(z3.fpIsNaN(x), z3.fpIsInf(x)))


class Enc:
    def __init__(self, exact=False):
        self.exact = exact
        self.c = {}
        self.ax = []
        self.vars = {}
        self.ints = {}
        self.nonlin = 0

    def of(self, n):
        for x in dag.walk([n]):
            if x.id not in self.c:
                self.c[x.id] = self._tr(x)
        return self.c[n.id]

    def var(self, name):
        if name not in self.vars:
            self.vars[name] = z3.FP(name, F)
        return self.vars[name]

    def _tr(self, n):
        op = n.op
        c = self.c
        a = [c[x.id] if isinstance(x, N) else x for x in n.a]
        if op == "const":
            return fpc(cval(n))
        if op == "var":
            return self.var(n.a[0])
        if op == "undef":
            if n.s == "d":
                return z3.FreshConst(F)
            if n.s == "b":
                return z3.FreshConst(z3.BoolSort())
            return z3.FreshConst(z3.BitVecSort(n.s[1]))
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            return self.arith(n, op, a)
        if op == "fneg":
            return z3.fpNeg(a[0])
        if op == "ite":
            return z3.If(a[0], a[1], a[2])
        if op == "true":
            return z3.BoolVal(True)
        if op == "false":
            return z3.BoolVal(False)
        if op == "not":
            return z3.Not(a[0])
        if op == "and":
            return z3.And(a[0], a[1])
        if op == "or":
            return z3.Or(a[0], a[1])
        if op == "xor":
            return z3.Xor(a[0], a[1])
        if op == "fcmp":
            p, x, y = a
            return {"oeq": lambda: z3.fpEQ(x, y), "ogt": lambda: z3.fpGT(x, y), "oge": lambda: z3.fpGEQ(x, y),
                    "one": lambda: z3.Or(z3.fpLT(x, y), z3.fpGT(x, y))}[p]()
        if op == "ford":
            return z3.Not(z3.fpIsNaN(a[0]))
        if op == "fclass":
            m, x = a
            neg, pos = z3.fpIsNegative(x), z3.fpIsPositive(x)
            alts = []
            if (m & 3) == 3:
                alts.append(z3.fpIsNaN(x))
            elif m & 3:
                alts.append(z3.And(z3.fpIsNaN(x), z3.FreshConst(z3.BoolSort())))
            for bn, bp, k in ((4, 512, z3.fpIsInf), (8, 256, z3.fpIsNormal), (16, 128, z3.fpIsSubnormal), (32, 64, z3.fpIsZero)):
                if m & bn and m & bp:
                    alts.append(k(x))
                elif m & bn:
                    alts.append(z3.And(k(x), neg))
                elif m & bp:
                    alts.append(z3.And(k(x), pos))
            return z3.Or(alts)
        if op == "fsign":
            return z3.If(z3.fpIsNaN(a[0]), z3.FreshConst(z3.BoolSort()), z3.fpIsNegative(a[0]))
        if op == "iconst":
            return z3.BitVecVal(n.a[0], n.s[1])
        if op == "ivar":
            r = z3.BitVec(n.a[0], n.s[1])
            self.ints[n.a[0]] = r
            return r
        if op == "ibin":
            o, x, y = a
            return {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y, "or": lambda: x | y,
                    "xor": lambda: x ^ y, "shl": lambda: x << y, "lshr": lambda: z3.LShR(x, y), "ashr": lambda: x >> y,
                    "udiv": lambda: z3.UDiv(x, y), "urem": lambda: z3.URem(x, y), "sdiv": lambda: x / y,
                    "srem": lambda: z3.SRem(x, y)}[o]()
        if op == "icast":
            o, x = a
            w, aw = n.s[1], n.a[1].s[1]
            if o == "trunc":
                return z3.Extract(w - 1, 0, x)
            return (z3.ZeroExt if o == "zext" else z3.SignExt)(w - aw, x)
        if op == "zextb":
            return z3.If(a[0], z3.BitVecVal(1, n.s[1]), z3.BitVecVal(0, n.s[1]))
        if op == "icmp":
            p, x, y = a
            return {"eq": lambda: x == y, "ugt": lambda: z3.UGT(x, y), "sgt": lambda: x > y}[p]()
        if op == "bits":
            b = z3.FreshConst(z3.BitVecSort(64))
            self.ax.append(z3.fpToFP(b, F) == a[0])
            return b
        if op == "frombits":
            return z3.fpToFP(a[0], F)
        if op == "fn":
            return self.fn(n, a[0], a[1:])
        if op == "fptrunc":
            r = z3.FreshConst(F)
            self.ax.append(z3.fpIsNaN(r) == z3.fpIsNaN(a[0]))
            return r
        if n.s == "d":
            return z3.FreshConst(F)
        if n.s == "b":
            return z3.FreshConst(z3.BoolSort())
        return z3.FreshConst(z3.BitVecSort(n.s[1]))

    # -------------------------------------------------------------- arithmetic
    def arith(self, n, op, a):
        x, y = a[0], a[1]
        dbl = len(n.a) < 3 or n.a[2] == 53
        nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
        if self.exact and dbl:
            self.nonlin += op in ("fmul", "fdiv")
            return {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}[op](RNE, x, y)
        r = z3.Const(f"_r{n.id}", F)
        A = self.ax.append
        I = z3.Implies
        same = n.a[0] is n.a[1]
        if op in ("fadd", "fsub"):
            yy = z3.fpNeg(y) if op == "fsub" else y
            A(nan(r) == z3.Or(nan(x), nan(y), z3.And(inf(x), inf(yy), neg(x) != neg(yy))))
            A(I(z3.And(inf(x), z3.Not(nan(r))), r == x))
            A(I(z3.And(inf(yy), z3.Not(nan(r))), r == yy))
            ok = z3.And(finite(x), finite(y))
            if dbl:
                A(I(ok, z3.fpEQ(r, ZERO) == z3.fpEQ(x, z3.fpNeg(yy))))
                A(I(z3.And(ok, zero(x), z3.Not(zero(y))), r == yy))
                A(I(z3.And(ok, zero(y), z3.Not(zero(x))), r == x))
            A(I(ok, z3.And(I(z3.fpGEQ(yy, ZERO), z3.fpGEQ(r, x)), I(z3.fpGEQ(x, ZERO), z3.fpGEQ(r, yy)),
                           I(z3.fpLEQ(yy, ZERO), z3.fpLEQ(r, x)), I(z3.fpLEQ(x, ZERO), z3.fpLEQ(r, yy)))) if dbl else z3.BoolVal(True))
        else:
            sgn = neg(x) != neg(y)
            A(I(z3.Not(nan(r)), neg(r) == sgn))
            if op == "fmul":
                A(nan(r) == z3.Or(nan(x), nan(y), z3.And(zero(x), inf(y)), z3.And(inf(x), zero(y))))
                A(I(z3.And(z3.Not(nan(r)), z3.Or(inf(x), inf(y))), inf(r)))
                A(I(z3.And(z3.Not(nan(r)), z3.Or(zero(x), zero(y))), zero(r)))
                if dbl:
                    for p, q in ((x, y), (y, x)):
                        A(I(z3.And(z3.fpEQ(p, ONEF)), r == q))
                        # |p| <= 1 -> |r| <= |q|,  |p| >= 1 -> |r| >= |q|
                        A(I(z3.And(z3.Not(nan(r)), z3.fpLEQ(z3.fpAbs(p), ONEF)), z3.fpLEQ(z3.fpAbs(r), z3.fpAbs(q))))
                        A(I(z3.And(z3.Not(nan(r)), z3.fpGEQ(z3.fpAbs(p), ONEF)), z3.fpGEQ(z3.fpAbs(r), z3.fpAbs(q))))
            else:
                A(nan(r) == z3.Or(nan(x), nan(y), z3.And(zero(x), zero(y)), z3.And(inf(x), inf(y))))
                A(I(z3.And(z3.Not(nan(r)), zero(x)), zero(r)))
                A(I(z3.And(z3.Not(nan(r)), zero(y)), inf(r)))
                A(I(z3.And(z3.Not(nan(r)), inf(x)), inf(r)))
                A(I(z3.And(z3.Not(nan(r)), inf(y)), zero(r)))
                if dbl:
                    A(I(z3.And(z3.Not(nan(r)), z3.fpEQ(x, y)), z3.fpEQ(r, ONEF)))
                    A(I(z3.fpEQ(y, ONEF), r == x))
        return r

    def fn(self, n, nm, xs):
        nan, inf, zero, neg = z3.fpIsNaN, z3.fpIsInf, z3.fpIsZero, z3.fpIsNegative
        if nm == "fabs":
            return z3.fpAbs(xs[0])
        if nm == "sqrt" and self.exact:
            self.nonlin += 1
            return z3.fpSqrt(RNE, xs[0])
        r = z3.Const(f"_f{n.id}", F)
        A = self.ax.append
        I = z3.Implies
        x = xs[0]
        if nm == "sqrt":
            A(nan(r) == z3.Or(nan(x), z3.And(neg(x), z3.Not(zero(x)))))
            A(I(zero(x), r == x))
            A(inf(r) == z3.And(inf(x), z3.Not(neg(x))))
            A(I(z3.fpGT(x, ZERO), z3.And(z3.fpGEQ(r, fpc(2.0 ** -537)), z3.fpLEQ(r, z3.If(inf(x), r, fpc(2.0 ** 512))))))
            A(I(z3.fpGEQ(x, fpc(2.0 ** -1022)), z3.fpGEQ(r, fpc(2.0 ** -511))))
        elif nm in ("sin", "cos"):
            A(nan(r) == z3.Or(nan(x), inf(x)))
            A(I(z3.Not(nan(r)), z3.fpLEQ(z3.fpAbs(r), ONEF)))
        elif nm == "exp":
            A(nan(r) == nan(x))
            A(I(z3.Not(nan(r)), z3.fpGEQ(r, ZERO)))
        elif nm == "log":
            A(nan(r) == z3.Or(nan(x), z3.And(neg(x), z3.Not(zero(x)))))
        elif nm == "atan2":
            A(nan(r) == z3.Or(nan(xs[0]), nan(xs[1])))
        elif nm == "hypot":
            A(z3.If(z3.Or([inf(v) for v in xs]), z3.And(inf(r), z3.Not(neg(r))), nan(r) == z3.Or([nan(v) for v in xs])))
            A(I(z3.Not(nan(r)), z3.fpGEQ(r, ZERO)))
        elif nm in ("csqrt_re", "csqrt_im"):
            y = xs[1]
            if nm == "csqrt_re":
                A(nan(r) == z3.And(z3.Not(inf(y)), z3.Or(nan(x), z3.And(nan(y), z3.Not(z3.And(inf(x), z3.Not(neg(x))))))))
                A(I(inf(y), z3.And(inf(r), z3.Not(neg(r)))))
            else:
                A(nan(r) == z3.And(z3.Not(inf(y)), z3.Or(nan(x), z3.And(nan(y), z3.Not(z3.And(inf(x), neg(x)))))))
                A(I(inf(y), inf(r)))
        elif nm in ("cdiv_re", "cdiv_im"):
            p, q, u, v = xs
            an = z3.Or([nan(w) for w in xs])
            c1 = z3.And(zero(u), zero(v), z3.Not(z3.And(nan(p), nan(q))))
            c2 = z3.And(z3.Or(inf(p), inf(q)), finite(u), finite(v))
            c3 = z3.And(z3.Or(inf(u), inf(v)), finite(p), finite(q))
            own = p if nm == "cdiv_re" else q
            A(I(z3.And(an, z3.Not(z3.Or(c1, c2, c3))), nan(r)))
            A(I(z3.And(an, c1, nan(own)), nan(r)))
            A(I(z3.And(an, c2, z3.Not(c1)), z3.Or(nan(r), inf(r))))
            A(I(z3.And(an, c3), zero(r)))
        elif nm in NANPROP:
            A(I(z3.Or([nan(v) for v in xs]), nan(r)))
        return r


def solve(enc, hyps, timeout=20000):
    """check satisfiability of hyps; returns ('unsat'|'sat'|'unknown', model or None)"""
    s = z3.SolverFor("QF_FPBV") if False else z3.Solver()
    s.set("timeout", timeout)
    for h in hyps:
        s.add(h)
    for x in enc.ax:
        s.add(x)
    t = time.time()
    r = s.check()
    STATS.q += 1
    STATS.t += time.time() - t
    if r == z3.sat:
        return "sat", s.model()
    return ("unsat" if r == z3.unsat else "unknown"), None


def fval(m, x):
    v = m.eval(x, model_completion=True)
    b = z3.simplify(z3.fpToIEEEBV(v))
    if z3.fpIsNaN(v).sexpr() and z3.is_true(z3.simplify(z3.fpIsNaN(v))):
        return math.nan
    return dag.bits2f(b.as_long())


def model_vals(enc, m, names):
    return {n: fval(m, enc.var(n)) for n in names}


def ival(m, x):
    return m.eval(x, model_completion=True).as_long()
