"""The contracts: what each library operation must compute, over the specification algebra of spec.py."""
import itertools
from fractions import Fraction as Fr
import math
import mpmath
from . import api, native, spec
from .api import TYPES, ADD_PAIRS
from .core import C, NK, Any
from .rdom import NAN, PINF, NINF

ALL = "d" + TYPES


def nz(K):
    return K.zero


def mul(a, b):
    return C(f"mul_{a}{b}", a + b, "a0 * a1", lambda K, x, y: spec.gp(x, y, K.zero), poly=True)


def sq(t):
    return C(f"sq_{t}", t, "sq(a0)", lambda K, x: spec.gp(x, x, K.zero), poly=True)


def cube(t):
    return C(f"cube_{t}", t, "cube(a0)", lambda K, x: spec.gp(spec.gp(x, x, K.zero), x, K.zero), poly=True)


def add(a, b):
    return C(f"add_{a}{b}", a + b, "a0 + a1", lambda K, x, y: spec.add(x, y), poly=True, roundings=1)


def sub(a, b):
    return C(f"sub_{a}{b}", a + b, "a0 - a1", lambda K, x, y: spec.sub(x, y), poly=True, roundings=1)


def subrev(a, b):
    """the wrong sign recorded in KNOWN_FINDINGS for six overloads"""
    return C(f"sub_{a}{b}", a + b, "a0 - a1", lambda K, x, y: spec.sub(y, x), poly=True, roundings=1)


INVOL = {"neg": ("-a0", spec.neg), "rev": ("reverse(a0)", spec.rev), "odd": ("oddverse(a0)", spec.odd), "dirv": ("dirverse(a0)", spec.dirv)}


def invol(k, t):
    e, f = INVOL[k]
    return C(f"{k}_{t}", t, e, lambda K, x: f(x), poly=True, roundings=0)


def dual(t):
    return C(f"dual_{t}", t, "dual(a0)", lambda K, x: spec.dual(x, K.zero, K.one), poly=True, roundings=0)


def sc(K, x):
    return [x] + [K.zero] * 7


def magsq(t):
    return C(f"magSq_{t}", t, "magSq(a0)", lambda K, x: sc(K, spec.magsq(x, K.zero)), relative=True)


def magnitude(t):
    return C(f"magnitude_{t}", t, "magnitude(a0)", lambda K, x: sc(K, K.sqrt(spec.magsq(x, K.zero))), relative=True)


def tids(c):
    return api.tid(c.w)


MUL = [a + b for a in ALL for b in ALL if a + b != "dd"]
SQ = "dSPCM"


def product_family():
    return [mul(p[0], p[1]) for p in MUL] + [sq(t) for t in SQ] + [cube(t) for t in SQ] + one_object("mul", TYPES)


def add_family():
    return [add(p[0], p[1]) for p in ADD_PAIRS]


def sub_family():
    return [sub(p[0], p[1]) for p in ADD_PAIRS]


SAME = {"mul": ("*", lambda K, x: spec.gp(x, x, K.zero)), "add": ("+", lambda K, x: spec.add(x, x)), "sub": ("-", lambda K, x: spec.sub(x, x))}


def one_object(k, ts=None):
    """the same object is both operands"""
    e, f = SAME[k]
    return [C(f"{k}_one_object_{t}", t, f"a0 {e} a0", lambda K, x: f(K, x), poly=True, callee=False, **({} if k == "mul" else {"roundings": 1}))
            for t in ts or [p[0] for p in ADD_PAIRS if p[0] == p[1]]]


def invol_family():
    return [invol(k, t) for k in INVOL for t in (ALL if k == "rev" else TYPES)]


def dual_family():
    return [dual(t) for t in "dSVBTPICDM"]


def mag_family():
    return [magsq(t) for t in ALL] + [magnitude(t) for t in ALL]


# ------------------------------------------------------------------ accuracy clauses, in units of 2^-53 (errdom.py)
ACC = 9007          # 1e-12


def norm(K, x):
    return K.sqrt(spec.magsq(x, K.zero))


def angle_below(e):
    """the clause is about operands (first argument) no longer than 2^e"""
    return lambda K, x, *o: [(norm(K, x), 2 ** e)]


# ------------------------------------------------------------------ directions, amplitudes, inverses
def within(K, m2, lo, hi):
    return [("ge", m2 - K.num(Fr(10) ** lo)), ("le", m2 - K.num(Fr(10) ** hi))]


def zero_pre(n=1):
    return lambda K, *xs: [("eq", c) for x in xs for c in x if not spec._z(c)] if not isinstance(K, NK) else [("eq", c) for x in xs for c in x]


def pairmagdir(t):
    def sp(K, x):
        m = K.sqrt(spec.magsq(x, K.zero))
        return (sc(K, m), [K.div(c, m) if not spec._z(c) else c for c in x])
    return C(f"pairMagDir_{t}", t, "pairMagDirFrom(a0)", sp, ret="md", relative=True,
             pre=lambda K, x: within(K, spec.magsq(x, K.zero), -300, 300), gen=gen_mag(t, 149))


def pairmagdir0(t):
    return C(f"pairMagDir0_{t}", t, "pairMagDirFrom(a0)", lambda K, x: (sc(K, K.zero), None), ret="md", pre=zero_pre(), callee=False)


def direction(t):
    def sp(K, x):
        m = K.sqrt(spec.magsq(x, K.zero))
        return [K.div(c, m) if not spec._z(c) else c for c in x]
    return C(f"direction_{t}", t, "direction(a0)", sp, relative=True, pre=lambda K, x: within(K, spec.magsq(x, K.zero), -300, 300),
             gen=gen_mag(t, 149))


def direction0(t):
    return C(f"direction0_{t}", t, "direction(a0)", lambda K, x: None, pre=zero_pre(), callee=False)


def ampsq(t):
    def sp(K, x):
        r = spec.gp(x, spec.dirv(x), K.zero)
        return [r[0]] + [K.zero] * 6 + [r[7]]
    return C(f"ampSq_{t}", t, "ampSq(a0)", sp, poly=True)


def ampprod(t):
    return C(f"ampProd_{t}", t, "a0 * dirverse(a0)", lambda K, x: spec.gp(x, spec.dirv(x), K.zero), poly=True, callee=False)


def amplitude(t):
    def ens(K, g, x):
        r = spec.gp(x, spec.dirv(x), K.zero)
        m = spec.magsq(x, K.zero)
        rt = K.sqrt(m)
        return [("scalar part of the square of the amplitude is the squared amplitude", "eq", g[0] * g[0] - g[7] * g[7] - r[0], m),
                ("trivector part of the square of the amplitude is the squared amplitude", "eq", K.num(2) * g[0] * g[7] - r[7], m),
                ("the scalar part of the amplitude is not negative", "ge", g[0], K.zero)] + [
                ("other grades of the amplitude are zero", "eq", g[i], K.zero) for i in range(1, 7)]
    return C(f"amplitude_{t}", t, "amplitude(a0)", None, ens=ens, callee=False, dom="finite", acc=lambda K, x: ACC,
             pre=lambda K, x: within(K, spec.magsq(x, K.zero), -280, 280), gen=gen_mag(t, 138))


def amplitude0(t):
    return C(f"amplitude0_{t}", t, "amplitude(a0)", lambda K, x: [K.zero] * 8, pre=zero_pre(), callee=False, dom="finite", acc=lambda K, x: 0)


def zero_ops(yes, *a, **k):
    """every operand component is zero: nothing is rounded"""
    c = C(*a, **k)
    c.zero_ops = yes
    return c


def gen_mag(t, e):
    """inputs of every kind, and magnitudes across the whole stated range"""
    def g(rnd):
        a = native.gen(t, rnd, native.GEN_CONSTS, min(e, 40))
        if rnd.random() < .3:
            s = 10.0 ** rnd.uniform(-e, e)
            m = max([abs(x) for v in a for x in v] + [0]) or 1
            a = [[x / m * s for x in v] for v in a]
        return a
    return g


def inv_spec(t):
    def sp(K, x):
        if t in "SVBT":
            m = spec.magsq(x, K.zero)
            return [K.div(c, m) if not spec._z(c) else c for c in spec.rev(x)]
        a = spec.gp(x, spec.dirv(x), K.zero)
        if t == "C":
            a = [x[0]] + [K.zero] * 6 + [x[7]]
            n = a[0] * a[0] + a[7] * a[7]
            return [K.div(a[0], n)] + [K.zero] * 6 + [K.div(-a[7], n)]
        n = a[0] * a[0] + a[7] * a[7]
        q = spec.gp([a[0]] + [K.zero] * 6 + [-a[7]], spec.dirv(x), K.zero)
        return [K.div(c, n) for c in q]
    return sp


def amp_norm(K, x):
    a = spec.gp(x, spec.dirv(x), K.zero)
    return a[0] * a[0] + a[7] * a[7]


def inv_pre(t):
    def pre(K, x):
        m = spec.magsq(x, K.zero)
        if t == "M":
            return within(K, amp_norm(K, x), -280, 280) + [("le", m - K.num(Fr(10) ** 140))]
        return within(K, m, -280, 280)
    return pre


def inverse(t):
    return C(f"inverse_{t}", t, ("inverse(a0)" if t in "SVBT" else f"inverse<{api.T[t][0]}>(a0)"), inv_spec(t), pre=inv_pre(t), gen=gen_mag(t, 138 if t != "M" else 68), dom="finite",
             tol=inv_tol(t), acc=inv_acc(t), acclim=inv_cond if t == "M" else None)


def inv_acc(t):
    """relative to the norm of the inverse; for a multivector times the condition |x|^2 / |amplitude|^2 (at most 1e6), squared and cubed"""
    def acc(K, x):
        m, r = spec.magsq(x, K.zero), norm(K, x)
        if t != "M":
            return K.prod(900, K.div(K.one, r))
        q = K.div(K.one, K.sqrt(amp_norm(K, x)))
        return [K.prod(50000, r, m, q, q), K.prod(50000, r, m, m, q, q, q), K.prod(200000, r, m, m, m, q, q, q, q)]
    return acc


def inv_cond(K, x):
    return [(K.prod(spec.magsq(x, K.zero), K.div(K.one, K.sqrt(amp_norm(K, x)))), 10 ** 6)]


def inv_tol(t):
    def tol(args, want):
        n = mpmath.sqrt(sum(w * w for w in want))
        if t != "M":
            return n * mpmath.mpf(10) ** -13
        K = NK()
        x = [mpmath.mpf(v) for v in args[0]]
        m = spec.magsq(x, K.zero)
        cond = m / mpmath.sqrt(amp_norm(K, x))
        return n * cond * cond * mpmath.mpf(10) ** -13
    return tol


def inverse0(t):
    if t == "M":
        pre = lambda K, x: [("eq", c) for c in (lambda a: (a[0], a[7]))(spec.gp(x, spec.dirv(x), K.zero))]
    else:
        pre = zero_pre()

    def nj(args, got):
        # the squared amplitude has to vanish in floating point too for this clause
        K = NK()
        x = spec.lift(t, [mpmath.mpf(v) for v in args[0]], K.zero)
        if any(abs(v) > 1e6 or v != round(v) for v in args[0]):
            return None
        if any(K.truth("ne", p) for _, p in pre(K, x)):
            return None
        return None if any(not native.isvalid(v) for v in got) else f"returned the valid value {got} for a non-invertible operand"

    def g(rnd):
        n = len(api.T[t][1])
        if t != "M" or rnd.random() < .2:
            return [[0.0] * n]
        # null multivectors: products with idempotents 1 +- e1 etc.
        v = [float(rnd.randint(-3, 3)) for _ in range(8)]
        i = rnd.choice([1, 2, 3])
        idem = spec.unit(0, 0.0, 1.0)
        idem[i] = rnd.choice([1.0, -1.0])
        return [spec.gp(v, idem, 0.0)]
    return zero_ops(t != "M", f"inverse0_{t}", t, ("inverse(a0)" if t in "SVBT" else f"inverse<{api.T[t][0]}>(a0)"), lambda K, x: None, pre=pre, callee=False, dom="finite", njudge=nj, gen=g)


def magdir_laws():
    """magnitude times direction is the value, the direction has unit magnitude"""
    out = []
    for t in ALL[1:]:
        k = dict(callee=False, relative=True, pre=lambda K, x: within(K, spec.magsq(x, K.zero), -300, 300), gen=gen_mag(t, 149))
        out += [C(f"magdir_restores_{t}", t, "pairMagDirFrom(a0).first * pairMagDirFrom(a0).second", lambda K, x: x, **k),
                C(f"magnitude_direction_{t}", t, "magnitude(direction(a0))", lambda K, x: sc(K, K.one), **k)]
    return out


def inverse_laws():
    """value times inverse and inverse times value are one"""
    out = []
    for t in "SVBTCM":
        e = "inverse(a0)" if t in "SVBT" else f"inverse<{api.T[t][0]}>(a0)"
        f = inv_acc(t)

        def acc(K, x, f=f):
            r = f(K, x)
            return [K.num(10)] + [K.prod(p, norm(K, x), 20) for p in (r if isinstance(r, list) else [r])]

        def tol(args, want, t=t):
            x = [mpmath.mpf(v) for v in args[0]]
            w = inv_spec(t)(NK(), spec.lift(t, x, mpmath.mpf(0)))
            return 20 * inv_tol(t)(args, w) * mpmath.sqrt(sum(v * v for v in x))
        k = dict(callee=False, pre=inv_pre(t), gen=gen_mag(t, 138 if t != "M" else 68), dom="finite", tol=tol, acc=acc, acclim=inv_cond if t == "M" else None)
        one = lambda K, x: spec.unit(0, K.zero, K.one)
        out += [C(f"inverse_right_{t}", t, f"a0 * {e}", one, **k), C(f"inverse_left_{t}", t, f"{e} * a0", one, **k)]
    return out


def log_exp():
    """the exponential of the logarithm is the spinor"""
    def sp(K, x, p=None):
        m2 = spec.magsq(x, K.zero)
        b2 = spec.magsq(only(x, BIV, K), K.zero)
        if K.truth("eq", b2) or K.truth("gt", b2 - K.num(EPSD * EPSD) * m2):
            return x
        m = K.sqrt(m2)
        return Any([x, [m if K.truth("gt", x[0]) else -m] + [K.zero] * 7])
    out = []
    for plane in (False, True):
        ps = "PB" if plane else "P"
        out.append(C("exp_log_" + ps, ps, "exp(logG2(a0, a1))" if plane else "exp(logG2(a0))", sp, pre=rot_pre(EPSD, Fr(10) ** 150), dom="valid", gen=gen_spin(plane), strict=False,
                     callee=False, tol=lambda args, want: mpmath.mpf(10) ** -12 * mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for x in args[0])),
                     acc=lambda K, x, p=None: K.prod(ACC, norm(K, x))))
    return out


def sub_laws(known):
    """A - B is -(B - A), and (A - B) + B is A in real arithmetic (left out: pairs whose difference is a known finding)"""
    out = []
    for p in ADD_PAIRS:
        a, b = p
        if f"sub_{p}" not in known:
            out.append(C(f"sub_restores_{p}", p, "(a0 - a1) + a1", lambda K, x, y: x, callee=False, dom="finite",
                         acc=lambda K, x, y: [K.prod(4, norm(K, x)), K.prod(4, norm(K, y))],
                         tol=lambda args, want: 4 * native.U * sum(mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for x in a)) for a in args)))
        if b + a in ADD_PAIRS and f"sub_{b}{a}" not in known:
            out.append(C(f"sub_opposite_{p}", p, "-(a1 - a0)", lambda K, x, y: spec.sub(x, y), poly=True, roundings=1, callee=False))
    return out


def add_laws():
    """the sum with the operands swapped"""
    return [C(f"add_swapped_{p}", p, "a1 + a0", lambda K, x, y: spec.add(x, y), poly=True, roundings=1, callee=False) for p in ADD_PAIRS if p[1] + p[0] in ADD_PAIRS]


# ------------------------------------------------------------------ exponential, logarithm, square root
def expB(K, b):
    """cos|B| + sin|B| B/|B|, and 1 for B = 0"""
    m2 = spec.magsq(b, K.zero)
    if K.truth("eq", m2):
        return spec.unit(0, K.zero, K.one)
    m = K.sqrt(m2)
    s = K.div(K.sin(m), m)
    r = [c * s if not spec._z(c) else c for c in b]
    r[0] = K.cos(m)
    return r


def only(x, idx, K):
    return [c if i in idx else K.zero for i, c in enumerate(x)]


BIV = (4, 5, 6)


def exp_B():
    return small(C("exp_B", "B", "exp(a0)", expB, dom="valid", gen=gen_angle("B"), tol=exp_tol, acc=lambda K, x: K.prod(20, K.one + norm(K, x))))


def exp_P():
    def sp(K, x):
        e = K.exp(x[0])
        return [c * e if not spec._z(c) else c for c in expB(K, only(x, BIV, K))]
    return small(C("exp_P", "P", "exp(a0)", sp, dom="valid", gen=gen_angle("P"), tol=exp_tol,
                   acc=lambda K, x: K.prod(20, K.exp(x[0]), K.one + norm(K, x))))


def exp_M():
    def sp(K, x):
        d = only(x, (1, 2, 3, 4, 5, 6), K)
        d2 = spec.gp(d, d, K.zero)                 # scalar + trivector, central
        e = K.exp(x[0])
        z = [e * K.cos(x[7])] + [K.zero] * 6 + [e * K.sin(x[7])]
        if K.truth("eq", d2[0]) and K.truth("eq", d2[7]):
            r = list(d)                            # the series ends after 1 + D
            r[0] = r[0] + K.one
            return spec.gp(z, r, K.zero)
        w = K.csqrt(d2[0], d2[7])
        ch, sh = K.ccosh(*w), K.csinh(*w)
        n = w[0] * w[0] + w[1] * w[1]
        q = (K.div(sh[0] * w[0] + sh[1] * w[1], n), K.div(sh[1] * w[0] - sh[0] * w[1], n))   # sinh w / w
        r = spec.gp([q[0]] + [K.zero] * 6 + [q[1]], d, K.zero)
        r = spec.add(r, [ch[0]] + [K.zero] * 6 + [ch[1]])
        return spec.gp(z, r, K.zero)
    v2 = lambda K, x: spec.magsq(only(x, (1, 2, 3), K), K.zero)

    def acc(K, x):
        # e^s (|x| + e^|v| (1 + |x| + |x|^2 + |x|^3)), with v the vector part
        e, n, b = K.exp(x[0]), norm(K, x), K.exp(K.sqrt(v2(K, x)))
        return [K.prod(900, e, *f) for f in ((K.one,), (n,), (b,), (b, n), (b, n, n), (b, n, n, n))]
    return small(C("exp_M", "M", "exp(a0)", sp, dom="valid", gen=gen_angle("M"), tol=exp_tol, acc=acc, accre=v2,
                   acclim=lambda K, x: [(norm(K, only(x, (1, 2, 3, 4, 5, 6), K)), 2 ** 12)]))


def small(c):
    """inputs for the real code stay where nothing overflows"""
    c.lim = 300.0
    return c


def exp_tol(args, want):
    """the measured error of the present code is about 3 U |result| (1 + |argument|)"""
    n = mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for a in args for x in a))
    w = mpmath.sqrt(sum(x * x for x in want))
    if len(args[0]) == 8:
        # the rotor and the boost parts each have the size of exp(s) cosh of the vector part
        w = max(w, mpmath.exp(args[0][0]) * mpmath.cosh(mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for x in args[0][1:4]))))
    return w * (1 + n) * 20 * native.U


def gen_angle(t):
    def g(rnd):
        a = native.gen(t, rnd, native.GEN_CONSTS, 12)
        m = max([abs(x) for v in a for x in v] + [0])
        if m > 12:
            s = rnd.uniform(0, 12) / m
            a = [[x * s for x in v] for v in a]
        if rnd.random() < .2:
            s = 10.0 ** rnd.uniform(-140, 0)
            a = [[x * s for x in v] for v in a]
        # around multiples of pi / 4
        if rnd.random() < .2 and m:
            k = rnd.choice([1, 2, 3, 4, 6, 8]) * math.pi / 4
            b = a[0][1:] if t == "P" else a[0]
            mm = math.sqrt(sum(x * x for x in b))
            if mm > 1e-3:
                f = k / mm * rnd.choice([1, 1, 1 + 1e-9, 1 - 1e-12])
                b = [x * f for x in b]
                a = [[a[0][0]] + b] if t == "P" else [b]
        return [[x if x == 0 or abs(x) > 1e-300 else 0.0 for x in v] for v in a]
    return g


EPSD = Fr(2) ** -52


class Strip(Exception):
    pass


def log_cases(K, x, plane):
    """the acceptable logarithms of a spinor (a list): one, or two in the strip where the bivector part is below rounding"""
    m = K.sqrt(spec.magsq(x, K.zero))
    b2 = spec.magsq(only(x, BIV, K), K.zero)
    flat = None

    def special():
        r = [K.log(m)] + [K.zero] * 7
        if not K.truth("gt", x[0]):
            d = K.sqrt(spec.magsq(plane, K.zero))
            for i in BIV:
                r[i] = K.div(K.pi * plane[i], d) if not spec._z(plane[i]) else K.zero
        return r

    def general():
        b = K.sqrt(b2)
        a = K.div(K.atan2(b, x[0]), b)
        r = [c * a if not spec._z(c) else c for c in x]
        r[0] = K.log(m)
        return r
    if K.truth("eq", b2):
        return [special()]
    if K.truth("gt", b2 - K.num(EPSD * EPSD) * m * m):
        return [general()]
    return [general(), special()]


def rot_pre(lo, hi):
    def pre(K, x, p=None):
        m2 = spec.magsq(x, K.zero)
        r = [("gt", m2 - K.num(lo * lo)), ("lt", m2 - K.num(hi * hi))]
        if p is not None:
            r += within(K, spec.magsq(p, K.zero), -200, 200)
        return r
    return pre


def default_plane(K):
    return spec.unit(4, K.zero, K.one)


def logG2(plane=False):
    ps = "PB" if plane else "P"

    def sp(K, x, p=None):
        r = log_cases(K, x, p if p is not None else default_plane(K))
        return r[0] if len(r) == 1 else Any(r)
    return C("logG2_" + ps, ps, "logG2(a0, a1)" if plane else "logG2(a0)", sp, pre=rot_pre(EPSD, Fr(10) ** 150), dom="valid",
             gen=gen_spin(plane), tol=log_tol, callee=plane, acc=lambda K, x, p=None: K.prod(ACC, K.one + K.sqrt(K.log(norm(K, x)) * K.log(norm(K, x)))))


def log_tol(args, want):
    return (1 + max(abs(w) for w in want)) * 24 * native.U


def gen_spin(plane):
    def g(rnd):
        a = native.gen("P", rnd, native.GEN_CONSTS, 14)
        r = rnd.random()
        if r < .25:
            a[0][1:] = [x * 10.0 ** rnd.uniform(-18, 0) for x in a[0][1:]]
        elif r < .35:
            a[0][1:] = [0.0, 0.0, 0.0]
        elif r < .5:
            a[0][0] *= 10.0 ** rnd.uniform(-18, 0)
        elif r < .6:
            s = 10.0 ** rnd.uniform(-14, 140)
            m = max(abs(x) for x in a[0]) or 1
            a = [[x / m * s for x in a[0]]]
        if plane:
            a += native.gen("B", rnd, (), 10)
        return [[x if x == 0 or abs(x) > 1e-300 else 0.0 for x in v] for v in a]
    return g


def logG2_zero():
    return zero_ops(True, "logG2_zero", "P", "logG2(a0)", lambda K, x: None, pre=zero_pre(), callee=False, dom="valid", gen=lambda rnd: [[rnd.choice([0.0, -0.0]) for _ in range(4)]])


BADS = {"nan": (NAN, math.nan), "pinf": (PINF, math.inf), "ninf": (NINF, -math.inf), "sub": (None, 1e-310)}


def nullof(f, expr, t, k, kind, extra=""):
    """component k of the (first) operand is not valid: the result is null"""
    name = "a" + api.COMP[api.T[t][1][k]]
    sp, x = BADS[kind]

    def g(rnd):
        a = [native.gen(c, rnd, native.GEN_CONSTS, 4)[0] for c in t + extra]
        a[0][k] = x * rnd.uniform(.5, 1) if kind == "sub" else x
        return a
    c = C(f"{f}_invalid_{kind}_{api.COMP[api.T[t][1][k]]}", t + extra, expr, lambda K, *xs: None, callee=False, dom="valid",
          special={name: sp} if sp else None, notvalid=(name,) if not sp else (), gen=g, what=expr)
    c.guide = False
    return c


def null_family(f, expr, t, extra=""):
    return [nullof(f, expr, t, k, kind, extra) for k in range(len(api.T[t][1])) for kind in BADS]


def sqrtG2(plane=False):
    ps = "PB" if plane else "P"

    def cases(K, x, p=None):
        p = p if p is not None else default_plane(K)
        m2 = spec.magsq(x, K.zero)
        m = K.sqrt(m2)
        b2 = spec.magsq(only(x, BIV, K), K.zero)
        return p, m, m2, b2

    def squared(g, tgt, K, m):
        q = spec.gp(g, g, K.zero)
        return [(f"component {api.COMP[i]} of the squared root equals the spinor", "eq", q[i] - tgt[i], m) for i in range(8)]

    def general(K, g, x, m):
        out = [("the root is principal (non-negative scalar part)", "ge", g[0], K.sqrt(m))]
        for i, j in ((4, 5), (5, 6), (6, 4)):
            out.append(("the root lies in the plane of the spinor", "eq", g[i] * x[j] - g[j] * x[i], m * K.sqrt(m)))
        out.append(("the root turns the same way as the spinor", "ge", g[4] * x[4] + g[5] * x[5] + g[6] * x[6], m * K.sqrt(m)))
        return out + squared(g, x, K, m)

    def special(K, g, x, m, p):
        # bivector part zero, or below rounding: squares back to the scalar with the spinor's magnitude
        out = []
        pos = K.truth("gt", x[0])
        if pos:
            out.append(("the root is a positive scalar", "gt", g[0], K.sqrt(m)))
        else:
            out.append(("the root of a negative scalar lies in the supplied plane", "eq", g[0], K.sqrt(m)))
            pm = K.sqrt(spec.magsq(p, K.zero))
            for i in BIV:
                out.append(("the root of a negative scalar lies in the supplied plane", "eq", g[i] * pm - K.sqrt(m) * p[i], K.sqrt(m) * pm))
        return out + squared(g, [m if pos else -m] + [K.zero] * 7, K, m)

    def ens(K, g, x, p=None):
        p, m, m2, b2 = cases(K, x, p)
        if K.truth("eq", b2):
            return special(K, g, x, m, p)
        if K.truth("gt", b2 - K.num(EPSD * EPSD) * m2):
            return general(K, g, x, m)
        return Any([general(K, g, x, m), special(K, g, x, m, p)])
    return C("sqrtG2_" + ps, ps, "sqrtG2(a0, a1)" if plane else "sqrtG2(a0)", None, ens=ens, pre=rot_pre(4 * EPSD, Fr(10) ** 150),
             dom="valid", strict=False, gen=gen_spin(plane), callee=False, acc=lambda K, x, p=None: ACC)


def sqrtG2_zero():
    return C("sqrtG2_zero", "P", "sqrtG2(a0)", lambda K, x: [K.zero] * 8, callee=False, dom="valid", acc=lambda K, x: 0,
             pre=lambda K, x: [("lt", spec.magsq(x, K.zero) - K.num(16 * EPSD * EPSD))])


# ------------------------------------------------------------------ algebraic laws, stated over client expressions
def lemma(name, ps, expr, sp, **k):
    k.setdefault("poly", True)
    return C(name, ps, expr, sp, callee=False, **k)


NAMED = ["e0", "e1", "e2", "e3", "e23", "e31", "e12", "e123"]
IDENT = "dSPCM"


def gpK(*xs):
    """product of several factors"""
    def f(K, *a):
        r = a[0]
        for x in a[1:]:
            r = spec.gp(r, x, K.zero)
        return r
    return f


def laws():
    out = [lemma("assoc_left", "MMM", "(a0 * a1) * a2", gpK()), lemma("assoc_right", "MMM", "a0 * (a1 * a2)", gpK()),
           lemma("distrib_left", "MMM", "a0 * (a1 + a2)", lambda K, x, y, z: spec.gp(x, spec.add(y, z), K.zero)),
           lemma("distrib_right", "MMM", "(a0 + a1) * a2", lambda K, x, y, z: spec.gp(spec.add(x, y), z, K.zero)),
           lemma("distrib_left_sum", "MMM", "a0 * a1 + a0 * a2", lambda K, x, y, z: spec.gp(x, spec.add(y, z), K.zero)),
           lemma("distrib_right_sum", "MMM", "a0 * a2 + a1 * a2", lambda K, x, y, z: spec.gp(spec.add(x, y), z, K.zero))]
    for x, y, z in itertools.product(TYPES, repeat=3):
        if "M" not in x + y + z:
            out += [lemma(f"assoc_left_{x + y + z}", x + y + z, "(a0 * a1) * a2", gpK()), lemma(f"assoc_right_{x + y + z}", x + y + z, "a0 * (a1 * a2)", gpK())]
    for x, y in itertools.product(TYPES, repeat=2):
        if x + y != "MM":
            l, r = (lambda K, a, b, c: spec.gp(a, spec.add(b, c), K.zero)), (lambda K, a, b, c: spec.gp(spec.add(a, b), c, K.zero))
            out += [lemma(f"distrib_left_{x + y}", x + y + y, "a0 * (a1 + a2)", l), lemma(f"distrib_left_sum_{x + y}", x + y + y, "a0 * a1 + a0 * a2", l),
                    lemma(f"distrib_right_{x + y}", x + x + y, "(a0 + a1) * a2", r), lemma(f"distrib_right_sum_{x + y}", x + x + y, "a0 * a2 + a1 * a2", r)]
    for t in IDENT:
        n = api.T[t][0]
        one = f"one<{n}>()"
        for u in sorted({t, "M"} | set("VBT") if t != "d" else set("SVBTM")):
            out += [lemma(f"one_{t}_left_{u}", u, f"{one} * a0", lambda K, x: x), lemma(f"one_{t}_right_{u}", u, f"a0 * {one}", lambda K, x: x)]
    for t in ALL:
        n = api.T[t][0]
        z = f"zero<{n}>()"
        us = {t, "M"} - ({"d"} if t == "d" else set())
        for u in sorted(us):
            out += [lemma(f"zero_{t}_left_{u}", u, f"{z} * a0", lambda K, x: [K.zero] * 8, roundings=16),
                    lemma(f"zero_{t}_right_{u}", u, f"a0 * {z}", lambda K, x: [K.zero] * 8, roundings=16)]
        if t != "d":
            out += [lemma(f"zero_{t}_sum_left", t, f"{z} + a0", lambda K, x: x, roundings=1), lemma(f"zero_{t}_sum_right", t, f"a0 + {z}", lambda K, x: x, roundings=1)]
    for i, n in enumerate(NAMED):
        out.append(lemma(f"basis_{n}", "", n, (lambda i: lambda K: spec.unit(i, K.zero, K.one))(i), exact=[1.0 if j == i else 0.0 for j in range(8)]))
        for j, m in enumerate(NAMED):
            out.append(lemma(f"basis_{n}_{m}", "", f"{n} * {m}", (lambda i, j: lambda K: spec.gp(spec.unit(i, K.zero, K.one), spec.unit(j, K.zero, K.one), K.zero))(i, j),
                             exact=[float(x) for x in spec.gp(spec.unit(i, 0, 1), spec.unit(j, 0, 1), 0)]))
    for t in ALL[1:]:
        idx = api.T[t][1]
        terms = " + ".join(f"MultiVector(a0[{k}] * {NAMED[i]})" for k, i in enumerate(idx))
        out.append(lemma(f"expansion_{t}", t, terms, lambda K, x: x))
    for n, v in (("pi", math.pi), ("piHalf", math.pi / 2), ("piQtr", math.pi / 4), ("turnFull", 2 * math.pi), ("turnHalf", math.pi), ("turnQtr", math.pi / 2)):
        out.append(lemma("const_" + n, "", n, lambda K: [K.zero] * 8, exact=[v] + [0.0] * 7))
    for t in ALL:
        n = api.T[t][0]
        out.append(lemma(f"zero_{t}", "", f"zero<{n}>()", lambda K: [K.zero] * 8, exact=[0.0] * 8))
    for t in IDENT:
        n = api.T[t][0]
        out.append(lemma(f"one_{t}", "", f"one<{n}>()", lambda K: spec.unit(0, K.zero, K.one), exact=[1.0] + [0.0] * 7))
    return out


def commuting():
    """each involution undoes itself, they commute, and how they act on products"""
    out = []
    for t in TYPES:
        for k, (e, f) in INVOL.items():
            ee = e.replace("a0", f"({e})")
            out.append(lemma(f"twice_{k}_{t}", t, ee, lambda K, x: x, roundings=0))
        for k, l in (("rev", "odd"), ("odd", "rev")):
            ee = INVOL[k][0].replace("a0", INVOL[l][0])
            out.append(lemma(f"{k}_{l}_{t}", t, ee, lambda K, x: spec.dirv(x), roundings=0))
        for k, l in (("rev", "dirv"), ("dirv", "rev"), ("odd", "dirv"), ("dirv", "odd")):
            ee = INVOL[k][0].replace("a0", INVOL[l][0])
            out.append(lemma(f"{k}_{l}_{t}", t, ee, (lambda f, g: lambda K, x: f(g(x)))(INVOL[k][1], INVOL[l][1]), roundings=0))
    for ps in ["MM"] + [a + b for a in TYPES for b in TYPES if a + b != "MM"]:
        gp = lambda K, x, y: spec.gp(x, y, K.zero)
        out += [lemma(f"rev_prod_{ps}", ps, "reverse(a0 * a1)", lambda K, x, y: spec.gp(spec.rev(y), spec.rev(x), K.zero)),
                lemma(f"rev_swap_{ps}", ps, "reverse(a1) * reverse(a0)", lambda K, x, y: spec.gp(spec.rev(y), spec.rev(x), K.zero)),
                lemma(f"dirv_prod_{ps}", ps, "dirverse(a0 * a1)", lambda K, x, y: spec.gp(spec.dirv(y), spec.dirv(x), K.zero)),
                lemma(f"dirv_swap_{ps}", ps, "dirverse(a1) * dirverse(a0)", lambda K, x, y: spec.gp(spec.dirv(y), spec.dirv(x), K.zero)),
                lemma(f"odd_prod_{ps}", ps, "oddverse(a0 * a1)", lambda K, x, y: spec.gp(spec.odd(x), spec.odd(y), K.zero)),
                lemma(f"odd_keep_{ps}", ps, "oddverse(a0) * oddverse(a1)", lambda K, x, y: spec.gp(spec.odd(x), spec.odd(y), K.zero))]
    return out


def dual_laws():
    out = []
    for t in ALL:
        d = lambda K, x: spec.dual(x, K.zero, K.one)
        out += [lemma(f"dual_right_{t}", t, "a0 * e123", d), lemma(f"dual_left_{t}", t, "e123 * a0", d),
                lemma(f"dual_twice_{t}", t, "dual(dual(a0))", lambda K, x: spec.neg(x), roundings=0)]
    return out


def mag_laws():
    out = []
    for t in TYPES:
        # the scalar part of a * reverse(a)
        out.append(lemma(f"magSq_rev_{t}", t, "MultiVector(a0 * reverse(a0)).theSca" if t not in "S" else "a0 * reverse(a0)", lambda K, x: sc(K, spec.magsq(x, K.zero))))
    for t in ALL:
        for f in ("magSq", "magnitude"):
            out += [C(f"{f}_zero_only_{t}", t, f"{f}(a0)", None, ens=lambda K, g, x: [("a zero magnitude only for the zero value", "gt", g[0], K.one)],
                      pre=lambda K, x: [("gt", spec.magsq(x, K.zero))] , callee=False, dom="finite", njudge=lambda a, g: None),
                    C(f"{f}_zero_{t}", t, f"{f}(a0)", lambda K, x: [K.zero] * 8, pre=zero_pre(), callee=False, dom="finite")]
    return out


def sandwich():
    sw = lambda x, y: None

    def sp(K, p, v):
        r = spec.gp(spec.gp(p, v, K.zero), spec.rev(p), K.zero)
        return r

    def lenV(K, g, p, v):
        pm, vm = spec.magsq(p, K.zero), spec.magsq(v, K.zero)
        gm = spec.magsq(g, K.zero)
        return [("the scalar part vanishes", "eq", g[0], K.prod(pm, K.sqrt(vm))), ("the trivector part vanishes", "eq", g[7], K.prod(pm, K.sqrt(vm)))] + [
            ("even / odd part vanishes", "eq", g[i], K.prod(pm, K.sqrt(vm))) for i in (4, 5, 6)] + [
            ("the length is |S|^2 |v|", "eq", gm - pm * pm * vm, K.prod(pm, pm, vm))]

    def lenB(K, g, p, v):
        pm, vm = spec.magsq(p, K.zero), spec.magsq(v, K.zero)
        gm = spec.magsq(g, K.zero)
        return [("the scalar part vanishes", "eq", g[0], K.prod(pm, K.sqrt(vm))), ("the trivector part vanishes", "eq", g[7], K.prod(pm, K.sqrt(vm)))] + [
            ("the vector part vanishes", "eq", g[i], K.prod(pm, K.sqrt(vm))) for i in (1, 2, 3)] + [
            ("the length is |S|^2 |b|", "eq", gm - pm * pm * vm, K.prod(pm, pm, vm))]
    out = []
    for v, ens in (("V", lenV), ("B", lenB)):
        for n, e in (("", "a0 * a1 * reverse(a0)"), ("r", "a0 * (a1 * reverse(a0))"), ("m", "MultiVector(a0) * MultiVector(a1) * MultiVector(reverse(a0))")):
            out.append(lemma(f"sandwich{n}_P{v}", "P" + v, e, sp))
            out.append(C(f"sandwich{n}_len_P{v}", "P" + v, e, None, ens=ens, callee=False, dom="finite", acc=lambda K, p, v: ACC))
    # rotation by an exponential: normal component kept, the rest turned by twice the angle (Rodrigues)

    def rot(K, b, v, inv=False):
        m2 = spec.magsq(b, K.zero)
        if K.truth("eq", m2):
            return v
        m = K.sqrt(m2)
        n = [K.zero] + [K.div(b[i], m) for i in BIV]      # unit normal of the plane (dual of the plane)
        i0 = 1 if inv is False else 4
        u = [K.zero] + [v[i0 + j] for j in range(3)]
        c, s = K.cos(K.num(2) * m), K.sin(K.num(2) * m)
        dot = n[1] * u[1] + n[2] * u[2] + n[3] * u[3]
        cr = [n[2] * u[3] - n[3] * u[2], n[3] * u[1] - n[1] * u[3], n[1] * u[2] - n[2] * u[1]]
        r = [K.zero] * 8
        for j in range(3):
            # S v S~ with S = cos + sin B^ turns by -2|B| about the normal dual to B^
            r[i0 + j] = c * u[j + 1] - s * cr[j] + (K.one - c) * dot * n[j + 1]
        return r
    out.append(C("rotate_V", "BV", "exp(a0) * a1 * reverse(exp(a0))", lambda K, b, v: rot(K, b, v), callee=False, dom="valid", tol=rot_tol, gen=gen_rot("V"),
                 acc=lambda K, b, v: K.prod(ACC, K.one + norm(K, b), norm(K, v)), acclim=angle_below(40)))
    out.append(C("rotate_B", "BB", "exp(a0) * a1 * reverse(exp(a0))", lambda K, b, v: rot(K, b, v, True), callee=False, dom="valid", tol=rot_tol, gen=gen_rot("B"),
                 acc=lambda K, b, v: K.prod(ACC, K.one + norm(K, b), norm(K, v)), acclim=angle_below(40)))

    def ang(K, g, b, v, w):
        return [("the angle (scalar product) between the vectors is preserved", "eq", g[0] - (v[1] * w[1] + v[2] * w[2] + v[3] * w[3]),
                 K.prod(K.sqrt(spec.magsq(v, K.zero)), K.sqrt(spec.magsq(w, K.zero))))]
    dot = "MultiVector(MultiVector(exp(a0) * a1 * reverse(exp(a0))) * MultiVector(exp(a0) * a2 * reverse(exp(a0)))).theSca"
    out.append(C("angle_V", "BVV", dot, None, ens=ang, callee=False, dom="valid", gen=gen_rot("VV"),
                 acc=lambda K, b, v, w: K.prod(40000, K.one + norm(K, b)), acclim=angle_below(30)))
    return out


def rot_tol(args, want):
    m = mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for x in args[0]))
    n = mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for x in args[1]))
    return (1 + m) * n * mpmath.mpf(10) ** -13


def gen_rot(ts):
    def g(rnd):
        a = gen_angle("B")(rnd)
        for t in ts:
            a += native.gen(t, rnd, native.GEN_CONSTS, 6)
        return a
    return g


def exp_laws():
    one = lambda K, *x: spec.unit(0, K.zero, K.one)
    u = dict(callee=False, dom="valid", tol=lambda a, w: mpmath.mpf(10) ** -12 * (1 + mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for x in a[0]))))
    g = dict(gen=gen_angle("B"))
    u.update(acc=lambda K, b: K.prod(ACC, K.one + norm(K, b)), acclim=angle_below(40))
    d = dict(gen=gen_mag("B", 40), pre=lambda K, b: within(K, spec.magsq(b, K.zero), -100, 100))
    return [small(c) for c in [C("exp_inverse", "B", "exp(a0) * exp(-a0)", one, **u, **g), C("exp_unit", "B", "magSq(exp(a0))", one, **u, **g),
            C("exp_unit_rev", "B", "exp(a0) * reverse(exp(a0))", one, **u, **g),
            C("exp_pi_direction", "B", "exp(pi * direction(a0))", lambda K, b: spec.unit(0, K.zero, -K.one), strict=False, **u, **d),
            C("exp_pi_pseudo", "", "exp(MultiVector(pi * e123))", lambda K: spec.unit(0, K.zero, -K.one), callee=False, dom="valid", tol=lambda a, w: mpmath.mpf(10) ** -14,
              acc=lambda K: 90),
            C("exp_zero_B", "", "exp(zero<BiVector>())", lambda K: spec.unit(0, K.zero, K.one), callee=False, dom="valid", acc=lambda K: 0),
            C("exp_P_as_M", "P", "exp(MultiVector(a0))", exp_P().spec, callee=False, dom="valid", gen=gen_angle("P"), tol=exp_tol_P,
              acc=lambda K, x: K.prod(900, K.exp(x[0]), K.one + norm(K, x)))]]


def exp_tol_P(args, want):
    return exp_tol([args[0]], want) + mpmath.exp(min(args[0][0], 700)) * mpmath.mpf(10) ** -13 * (1 + mpmath.sqrt(sum(mpmath.mpf(x) ** 2 for x in args[0])))


# ------------------------------------------------------------------ every operation of the library
def nan_family():
    """every arithmetic operation with a value result, by contract"""
    out = product_family() + add_family() + sub_family() + one_object("add") + one_object("sub") + invol_family() + dual_family() + mag_family()
    out += [f(t) for t in ALL[1:] for f in (pairmagdir, direction)]
    out += [f(t) for t in TYPES for f in (ampsq, amplitude)] + [inverse(t) for t in "SVBTCM"]
    out += [exp_B(), exp_P(), exp_M(), logG2(), logG2(True), sqrtG2(), sqrtG2(True)]
    return out


# ------------------------------------------------------------------ near equality over the reals
RZ = Fr(1, 2 ** 48)


def near_num(f, absolute=False):
    """true below the tolerance, false from it on; within a few roundings of the tolerance either answer is right"""
    def sp(K, a, b, t):
        a, b, t = a[0], b[0], t[0]
        if not K.truth("gt", t):
            return False
        tiny = absolute or not K.truth("ge", b * b - K.num(Fr(10) ** -580))
        if tiny and not absolute and K.truth("gt", b * b - K.num(Fr(10) ** -600)):
            return None
        d = a - b
        if tiny:
            if K.truth("lt", d * d * K.num((1 + RZ) ** 2) - t * t):
                return True
            if K.truth("eq", b) and K.truth("eq", d * d - t * t):
                return False        # nothing is rounded here: not strictly below
            return False if K.truth("ge", d * d * K.num((1 - RZ) ** 2) - t * t) else None
        # |a - b| +- slack (|a| + |b|) against t |b|
        u = K.num(RZ)
        aa, bb = K.sqrt(a * a), K.sqrt(b * b)
        dd = K.sqrt(d * d)
        if K.truth("lt", dd + u * (aa + bb) - t * bb):
            return True
        if K.truth("eq", b * b - K.num(1)) and K.truth("ge", a * b - K.num(Fr(1, 2))) and K.truth("le", a * b - K.num(2)) and K.truth("eq", d * d - t * t):
            return False            # nothing is rounded here: not strictly below
        return False if K.truth("ge", dd - u * (aa + bb) - t * bb) else None
    return C(f"{f}_real", "ddd", f"{f}(a0, a1, a2)", sp, ret="bool", dom="valid", callee=False, gen=lambda r: gen_close("ddd", r), what=f + "(test, reference, tolerance)")


def near_array(t):
    """norm of the difference against the norm of the reference"""
    ps = t + t + "d"

    def sp(K, a, b, tol):
        a, b = [[v[i] for i in api.T[t][1]] for v in (a, b)]
        tl = tol[0]
        if not K.truth("gt", tl):
            return False
        R = K.zero
        for x in b:
            R = R + x * x
        ds = [x - y for x, y in zip(a, b)]
        D = K.zero
        for x in ds:
            D = D + x * x
        if K.truth("eq", R):
            # a zero reference: every component below, or the norm not below
            if all(K.truth("lt", x * x - tl * tl) for x in ds):
                return True
            return False
        u = RZ
        if K.truth("lt", D * K.num((1 + u) ** 2) - tl * tl * R):
            return True
        return False if K.truth("ge", D * K.num((1 - u) ** 2) - tl * tl * R) else None

    def pre(K, a, b, tol):
        R = K.zero
        for x in b:
            R = R + x * x
        D = K.zero
        for x, y in zip(a, b):
            D = D + (x - y) * (x - y)
        lo, hi = K.num(Fr(10) ** -290), K.num(Fr(10) ** 290)
        # squares of reference and difference neither overflow nor underflow, or are zero
        out = []
        for q in (R, D):
            if not K.truth("eq", q):
                out += [("ge", q - lo), ("le", q - hi)]
        return out
    return C(f"nearly_real_{t}", ps, "nearlyEquals(a0, a1, a2)", sp, ret="bool", dom="valid", strict=False, pre=pre, split_pre=True, callee=False,
             gen=lambda r: gen_close(ps, r), what="nearlyEquals(test, reference, tolerance)")


def gen_close(ps, r):
    from .fcon import gen_near
    while True:
        a = gen_near(ps, r)
        if r.random() < .1:         # differences that equal the tolerance, without rounding
            n, i, x = len(a[0]), r.randrange(len(a[0])), r.choice([1, 2, 3, 4, 8, 12, 20]) / 2 ** r.choice([3, 4, 5, 20])
            a[1] = [0.0] * n
            a[1][i] = r.choice([0.0, 1.0, -1.0])
            a[0] = list(a[1])
            a[0][i] += x if r.random() < .5 or x >= .5 else -x
            a[2] = [x]
        if all(native.isvalid(x) for v in a for x in v):
            return a


def near_ties():
    """differences that equal the tolerance with nothing rounded on the way: one component, changed by a power of two"""
    out = []
    for t in "123SVBT":
        n = int(t) if t in "123" else len(api.T[t][1])
        ty = f"std::array<double, {n}>" if t in "123" else api.T[t][0]
        for i in range(n):
            at = lambda e: f"{ty}{{" + ("{" if t not in "123" else "") + ", ".join(e if j == i else "0." for j in range(n)) + ("}" if t not in "123" else "") + "}"
            for k, (a, b, tol) in enumerate((("2. * a0", "a0", "1."), ("0.", "a0", "1."), ("a0", "2. * a0", ".5"))):
                out.append(C(f"near_tie{k}_{t}{i}", "d", f"nearlyEquals({at(a)}, {at(b)}, {tol})", lambda K, x: False, ret="bool", dom="valid", strict=False, callee=False,
                             pre=lambda K, x: [("ge", x[0] * x[0] - K.num(Fr(10) ** -200)), ("le", x[0] * x[0] - K.num(Fr(10) ** 200))],
                             gen=lambda r: [[r.choice([1.0, -1.0, r.uniform(-4, 4)]) * 10 ** r.choice([0, r.uniform(-90, 90)])]],
                             what="a difference that equals the tolerance"))
    return out


def near_family():
    return [near_num("nearlyEquals"), near_num("nearlyEqualsRel"), near_num("nearlyEqualsAbs", True)] + [near_array(t) for t in "123SVBT"]
