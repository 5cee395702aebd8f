"""Contracts decided in the floating-point domain: validity (P14), propagation of NaN (P15), comparisons (P16)."""
import math, random, time
import z3
from . import api, dag, fdom, guide, native
from .api import T, W
from .core import Ob, var_names
from .dag import N, const, ITE, NOT, AND, OR
from .ir import Unsupported

EPSD = 2.0 ** -52
SPECIALS = [0.0, -0.0, 1.0, -1.0, math.nan, math.inf, -math.inf, 1e-310, -1e-310, 5e-324, 2.0 ** -1022, -2.0 ** -1022, 1.7e308, 1e-200, 1e200, 0.5, 3.0]
isvalid = native.isvalid


def nvalid(n):
    """zero or normal, as a node"""
    return dag.fclass(8 | 256 | 32 | 64, n)


def allof(xs):
    r = dag.TRUE
    for x in xs:
        r = AND(r, x)
    return r


def anyof(xs):
    r = dag.FALSE
    for x in xs:
        r = OR(r, x)
    return r


class FC:
    """contract over all doubles.  goals(vals, V) -> list of (label, node) that must be true on every outcome;
    V: the variables, vals: what the wrapper returns."""

    def __init__(self, name, params, expr, goals, oracle=None, ret="mv", gen=None, what=None, timeout=20000, stmt="", other=None, extra=""):
        self.w = W(name, params, expr, ret=ret, pre=stmt, extra="size_t " + extra if extra else "")
        self.extra = extra
        self.name, self.params, self.expr, self.ret = name, params, expr, ret
        self.goals, self.njudge = goals, oracle
        self.gen = gen or (lambda rnd: gen_special(params, rnd))
        self.what = what or expr
        self.spec = self.pre = self.exact = self.ens = None
        self.callee = False
        self.timeout = timeout
        self.other = other


def gen_special(params, rnd):
    mode = rnd.randrange(4)
    out = []
    for t in params:
        v = []
        for _ in T[t][1]:
            if mode == 0:
                x = rnd.choice(SPECIALS)
            elif mode == 1:
                x = rnd.choice(SPECIALS) if rnd.random() < .15 else rnd.uniform(-2, 2)
            elif mode == 2:
                x = rnd.choice([0.0, 1.0, -1.0, 2.0]) if rnd.random() < .9 else rnd.choice(SPECIALS)
            else:
                x = rnd.choice([-1, 1]) * 10 ** rnd.uniform(-320, 308)
            v.append(x)
        out.append(v)
    return out


def path_node(path):
    r = dag.TRUE
    for c, pol in path:
        r = AND(r, c if pol else NOT(c))
    return r


def goal_nodes(prog, fc):
    res = prog.execute(fc.name, ivars=[dag.ivar(64, fc.extra)] if fc.extra else ())
    V = {n: dag.var(n) for ns in var_names(fc.params) for n in ns}
    out = []
    for path, vals in res.outs:
        p = path_node(path)
        other = None
        if fc.other:
            r2 = prog.execute(fc.other)
            if len(r2.outs) != 1:
                raise Unsupported("reference expression has several outcomes")
            other = r2.outs[0][1]
        for lab, g in (fc.goals(vals, V, other) if fc.other else fc.goals(vals, V)):
            out.append((lab, OR(NOT(p), g)))
    for path, why in res.abn:
        out.append(("no abnormal outcome (" + why + ")", NOT(path_node(path))))
    return res, out


def fverify(prog, fc):
    """-> Ob"""
    t0 = time.time()
    if fc.name in prog.h.dropped:
        return Ob(fc.name, "missing", "the operation does not compile: " + prog.h.dropped[fc.name])
    try:
        res, goals = goal_nodes(prog, fc)
    except (Unsupported, RecursionError, KeyError, NotImplementedError, AssertionError) as e:
        return Ob(fc.name, "unknown", f"{type(e).__name__}: {e}")
    names = [n for ns in var_names(fc.params) for n in ns]
    unk = None
    cache = {}
    n = 0
    for lab, g in goals:
        n += 1
        try:
            g = fdom.simp(g, {}, cache)
            if g is dag.TRUE:
                continue
            st, env = prove(g, names, fc.timeout)
        except (Unsupported, z3.Z3Exception, KeyError) as e:
            st, env = "unknown", None
            lab += f" ({type(e).__name__} {e})"
        if st == "sat":
            return Ob(fc.name, "refuted", lab, cex=env, ms=int(1000 * (time.time() - t0)))
        if st != "proved":
            unk = unk or lab + " (not decided)"
    if unk:
        return Ob(fc.name, "unknown", unk, ms=int(1000 * (time.time() - t0)))
    return Ob(fc.name, "proved", f"{n} goals", "IEEE-754 evaluation + z3 (QF_FP)", ms=int(1000 * (time.time() - t0)))


def has_undef(g):
    return any(x.op == "undef" for x in dag.walk([g]))


INEXACT = {"fma", "cdiv_re", "cdiv_im", "cbrt", "exp2", "reread"}


def sample(g, names, ints=(), n=120, fns=()):
    """an input on which the goal is false, by evaluation of IEEE-754 doubles, or None"""
    order = dag.walk([g])
    if any(x.op in ("undef", "spec", "bvar") or x.op == "fn" and (x.a[0] in INEXACT or fns is not None and x.a[0] not in ("sqrt", "fabs") + tuple(fns)) for x in order):
        return None
    rnd = random.Random(len(order))
    for k in range(n):
        m = rnd.randrange(4)
        env = {v: (1.25 + .25 * i if k == 0 else rnd.choice(SPECIALS) if m == 0 else rnd.uniform(-2, 2) if m == 1 else
                   rnd.choice([-1, 1]) * 10 ** rnd.uniform(-320, 308) if m == 2 else rnd.choice([0.0, 1.0, -1.0, 2.0, rnd.choice(SPECIALS)])) for i, v in enumerate(names)}
        env.update({v: rnd.choice([0, 1, 2, 3, 7, 8, 2 ** 32, 2 ** 64 - 1]) for v in ints})
        try:
            v = guide.evaluate(order, env)
        except (NotImplementedError, KeyError, ValueError, OverflowError):
            return None
        if not v[g.id]:
            return env
    return None


def prove(g, names, timeout):
    if fdom.STATS.t > 240:
        timeout = min(timeout, 1500)
    e = sample(g, names, [x.a[0] for x in dag.walk([g]) if x.op == "ivar"])
    if e is not None:
        return "sat", e
    enc = fdom.Enc()
    t = enc.of(g)
    st, m = fdom.solve(enc, [z3.Not(t)], timeout)
    if st == "unsat":
        return "proved", None
    env = fdom.model_vals(enc, m, names) if m is not None else None
    ar = [x for x in dag.walk([g]) if x.op in ("fadd", "fsub", "fmul", "fdiv") or x.op == "fn" and x.a[0] != "fabs"]
    if st == "sat" and not ar:
        return "sat", env
    if all(x.op != "fn" or x.a[0] == "sqrt" for x in ar) and len(ar) < 40:
        enc = fdom.Enc(exact=True)
        t = enc.of(g)
        st2, m = fdom.solve(enc, [z3.Not(t)], timeout)
        if st2 == "unsat":
            return "proved", None
        if st2 == "sat":
            return "sat", fdom.model_vals(enc, m, names)
    return "unknown", env


# ------------------------------------------------------------------ P14
def valid_contract(t):
    def goals(vals, V):
        want = allof(nvalid(v) for v in V.values())
        return [("true exactly when every component is zero or normal", NOT(dag.XOR(vals[0], want)))]

    def judge(args, got):
        want = all(isvalid(x) for a in args for x in a)
        return None if got == want else f"returned {got} for {args[0]}, the contract requires {want}"
    return FC(f"isValid_{t}", t, "isValid(a0)", goals, judge, ret="bool")


def constant_contract(name, expr, want):
    return FC(name, "", f"isValid({expr})", lambda vals, V: [(f"{expr} is {'valid' if want else 'not valid'}", vals[0] if want else NOT(vals[0]))],
              lambda args, got: None if got == want else f"returned {got}", ret="bool", gen=lambda r: [])


def null_components(t):
    n = T[t][0]
    idx = T[t][1]

    def goals(vals, V):
        r = dag.FALSE
        for i in idx:
            r = OR(r, nan(vals[i]))
        return [("the null value holds a NaN", r)]
    return FC(f"nullc_{t}", "", f"null<{n}>()", goals, lambda args, got: None if any(got[i] != got[i] for i in idx) else f"null value is {got}", gen=lambda r: [])


def nan(n):
    return NOT(dag.fcmp("ord", n, n))


def validity():
    out = [valid_contract(t) for t in "d" + api.ARRAYS + api.TYPES]
    for t in "d" + api.TYPES:
        n = T[t][0]
        out.append(constant_contract(f"valid_zero_{t}", f"zero<{n}>()", True))
        out.append(constant_contract(f"valid_null_{t}", f"null<{n}>()", False))
    for t in "dSPCM":
        out.append(constant_contract(f"valid_one_{t}", f"one<{T[t][0]}>()", True))
    for b in ("e0", "e1", "e2", "e3", "e23", "e31", "e12", "e123"):
        out.append(constant_contract("valid_" + b, b, True))
    out += [null_components(t) for t in "d" + api.TYPES]
    return out


# ------------------------------------------------------------------ P15
def nanprop(c, k):
    """operand k of the operation of contract c: any NaN component gives a result containing a NaN"""
    names = var_names(c.params)

    def judge(args, got):
        if not any(x != x for x in args[k]):
            return None
        return None if any(x != x for x in got) else f"operand {k} holds a NaN, the result is the ordinary value {got}"

    def gen(rnd):
        a = gen_special(c.params, rnd)
        i = rnd.randrange(len(a[k]))
        a[k][i] = math.nan
        return a
    fc = FC(f"nan{k}_{c.name}", c.params, c.expr, None, judge, ret=c.ret, gen=gen, what=c.expr)
    fc.nan_of = names[k]
    return fc


def nverify(prog, fc):
    """NaN propagation: each component of the operand in turn is NaN, everything else arbitrary"""
    t0 = time.time()
    if fc.name in prog.h.dropped:
        return Ob(fc.name, "missing", "the operation does not compile: " + prog.h.dropped[fc.name])
    try:
        res = prog.execute(fc.name)
    except (Unsupported, RecursionError, KeyError, NotImplementedError, AssertionError) as e:
        return Ob(fc.name, "unknown", f"{type(e).__name__}: {e}")
    names = [n for ns in var_names(fc.params) for n in ns]
    z = 0
    unk = None
    for v in fc.nan_of:
        env = {v: fdom.NANC}
        cache = {}
        for path, vals in res.outs:
            p = fdom.simp(path_node(path), env, cache)
            if p is dag.FALSE:
                continue
            rs = [fdom.simp(x, env, cache) if x is not None else const(0.0) for x in vals]
            if any(fdom.isnan_c(r) for r in rs):
                continue
            rs = [r for r in rs if not dag.isconst(r)]
            g = NOT(p)
            for r in rs:
                g = OR(g, nan(r))
            g = fdom.simp(g, {}, {})
            z += 1
            st, m = ("proved", None) if g is dag.TRUE else prove_nan(g, names, v)
            if st != "proved":
                if m:
                    m[v] = math.nan
                if st == "sat":
                    return Ob(fc.name, "refuted", f"a NaN in component {v} does not reach the result", cex=m, ms=int(1000 * (time.time() - t0)))
                unk = (f"a NaN in component {v} may not reach the result (not decided)", m)
        for path, why in res.abn:
            p = fdom.simp(path_node(path), env, cache)
            if p is not dag.FALSE:
                unk = unk or (f"abnormal outcome with a NaN operand: {why}", None)
    if unk:
        return Ob(fc.name, "unknown", unk[0], cex=unk[1], ms=int(1000 * (time.time() - t0)))
    return Ob(fc.name, "proved", f"{len(fc.nan_of)} components, {z} solver goals",
              "IEEE-754 evaluation + z3 (QF_FP)" if z else "IEEE-754 evaluation", ms=int(1000 * (time.time() - t0)))


def prove_nan(g, names, v):
    enc = fdom.Enc()
    st, m = fdom.solve(enc, [z3.Not(enc.of(g))], 20000)
    if st == "unsat":
        return "proved", None
    env = fdom.model_vals(enc, m, names) if m is not None else None
    if st == "sat" and not any(x.op in ("fadd", "fsub", "fmul", "fdiv", "undef") or x.op == "fn" and x.a[0] != "fabs" for x in dag.walk([g])):
        return "sat", env
    return "unknown", env


# ------------------------------------------------------------------ P16
def near(f, a, b, t):
    return f"{f}({a}, {b}, {t})"


def gen_near(params, rnd):
    """pairs of values close to each other, with a tolerance of the size of their difference, or special values"""
    if rnd.random() < .3:
        a = gen_special(params, rnd)
        if rnd.random() < .5:
            a[1] = list(a[0])
        a[2] = [rnd.choice([0.0, -1.0, 1e-8, 1.0, math.nan, math.inf, 1e-300, EPSD, 1e10])]
        return a
    e = rnd.choice([0, 0, 1, 3, 20, 100, 150]) if len(params) > 2 else 0
    sc = 10 ** rnd.uniform(-e, e)
    n = len(T[params[0]][1])
    b = [rnd.choice([0.0, 1.0, rnd.uniform(-2, 2), rnd.uniform(-2, 2)]) * sc for _ in range(n)]
    if rnd.random() < .1:
        b = [0.0] * n
    t = 10 ** rnd.uniform(-15, 1)
    m = max([abs(x) for x in b]) or 1.0
    f = rnd.choice([.1, .5, .9, .999, 1.001, 1.1, 2, 10]) * t
    mode = rnd.randrange(3)
    if mode == 0:
        a = [x + f * m * rnd.uniform(-1, 1) for x in b]
    elif mode == 1:
        a = list(b)
        i = rnd.randrange(n)
        a[i] += rnd.choice([-1, 1]) * f * m
    else:
        a = [x * (1 + f) for x in b]
    return [a, b, [t]]


def falses(t, f="nearlyEquals"):
    """false for invalid components and for tolerances that are not positive"""
    ps = t + t + "d"

    def goals(vals, V):
        out = []
        ok = allof(nvalid(v) for k, v in V.items() if k[0] != "c")
        tol = [v for k, v in V.items() if k[0] == "c"][0]
        for k, v in V.items():
            if k[0] != "c":
                out.append((f"false when component {k} is not valid", OR(nvalid(v), NOT(vals[0]))))
        out.append(("false for a tolerance that is not positive", OR(dag.fcmp("ogt", tol, const(0.0)), NOT(vals[0]))))
        return out

    def judge(args, got):
        if got and not all(isvalid(x) for a in args[:2] for x in a):
            return f"returned true for the invalid arguments {args}"
        if got and not args[2][0] > 0:
            return f"returned true with tolerance {args[2][0]}"
        return None
    return FC(f"{f}_false_{t}", ps, near(f, "a0", "a1", "a2"), goals, judge, ret="bool", gen=lambda r: gen_near(ps, r), what=f + "(test, reference, tolerance)")


def itself(t, f="nearlyEquals"):
    def goals(vals, V):
        ok = allof(nvalid(v) for k, v in V.items() if k[0] == "a")
        tol = [v for k, v in V.items() if k[0] == "b"][0]
        pos = dag.fcmp("ogt", tol, const(0.0))
        return [("true for a valid value against itself", OR(NOT(AND(ok, pos)), vals[0])),
                ("false for an invalid value against itself", OR(ok, NOT(vals[0]))),
                ("false for a value against itself with a tolerance that is not positive", OR(pos, NOT(vals[0])))]

    def judge(args, got):
        if all(isvalid(x) for x in args[0]) and args[1][0] > 0 and not got:
            return f"returned false for {args[0]} against itself with tolerance {args[1][0]}"
        if got and not (all(isvalid(x) for x in args[0]) and args[1][0] > 0):
            return f"returned true for {args[0]} against itself with tolerance {args[1][0]}"
        return None

    def gen(rnd):
        a = gen_special(t + "d", rnd)
        if rnd.random() < .7:
            a[0] = [x if isvalid(x) else rnd.choice([1.0, 1e-200, 1e200, 1e-155, 0.0]) for x in a[0]]
        a[1] = [rnd.choice([1e-8, 1.0, 1e-300, EPSD, 1e10, 5e-324, rnd.choice([0.0, -1.0, math.nan])])]
        return a
    return FC(f"{f}_itself_{t}", t + "d", near(f, "a0", "a0", "a1"), goals, judge, ret="bool", gen=gen, what=f + "(test, reference, tolerance)")


def same_as(name, ps, expr, ref, judge=None, gen=None, what=None, lab="agrees with the definition"):
    """the expression and the reference expression compute the same truth value"""
    fc = FC(name, ps, expr, lambda vals, V, o: [(lab, NOT(dag.XOR(vals[0], o[0])))], judge, ret="bool", gen=gen, what=what, other="ref_" + name)
    fc.refw = W("ref_" + name, ps, ref, ret="bool")
    return fc


PARTS = {"P": ("theSca", "theBiv"), "I": ("theVec", "theTri"), "C": ("theSca", "theTri"), "D": ("theVec", "theBiv"),
         "M": ("theSca", "theVec", "theBiv", "theTri")}


def composite(t):
    ps = t + t + "d"
    ref = " & ".join(f"nearlyEquals(a0.{g}, a1.{g}, a2)" for g in PARTS[t])
    fc = same_as(f"nearly_grades_{t}", ps, near("nearlyEquals", "a0", "a1", "a2"), ref, gen=lambda r: gen_near(ps, r),
                 what="nearlyEquals(test, reference, tolerance)", lab="true exactly when every grade is nearly equal")
    fc.njudge2 = True
    return fc


def blade_array(t):
    ps = t + t + "d"
    return same_as(f"nearly_data_{t}", ps, near("nearlyEquals", "a0", "a1", "a2"), "nearlyEquals(a0.theData, a1.theData, a2)",
                   gen=lambda r: gen_near(ps, r), what="nearlyEquals(test, reference, tolerance)", lab="a blade compares like its components")


def default_tol(t, f="nearlyEquals"):
    ps = t + t
    fc = same_as(f"{f}_default_{t}", ps, f"{f}(a0, a1)", f"{f}(a0, a1, std::numeric_limits<double>::epsilon())",
                 gen=lambda r: gen_near(ps + "d", r)[:2], what=f + "(test, reference)", lab="the default tolerance is machine epsilon")
    return fc


def equality(t):
    ps = t + t
    n = len(T[t][1])

    def goals(vals, V):
        v = list(V.values())
        want = allof(dag.fcmp("oeq", x, y) for x, y in zip(v[:n], v[n:]))
        return [("true exactly when all components compare equal", NOT(dag.XOR(vals[0], want)))]

    def judge(args, got):
        want = all(x == y for x, y in zip(*args))
        return None if got == want else f"returned {got} for {args}"

    def gen(rnd):
        a = gen_special(ps, rnd)
        a[1] = list(a[0])
        if rnd.random() < .7:
            i = rnd.randrange(n)
            a[1][i] = rnd.choice([a[1][i], a[1][i] * (1 + 2.0 ** -52), -a[1][i], rnd.choice(SPECIALS)])
        return a
    return FC(f"equal_{t}", ps, "a0 == a1", goals, judge, ret="bool", gen=gen, what="operator==")


def equal_self(t):
    """one object on both sides"""
    return FC(f"equal_self_{t}", t, "a0 == a0", lambda vals, V: [("true exactly when no component is NaN", NOT(dag.XOR(vals[0], NOT(anyof(nan(v) for v in V.values())))))],
              lambda args, got: None if got == (not any(x != x for x in args[0])) else f"returned {got} for {args[0]} against itself", ret="bool", what="operator==")


def bools():
    return FC("nearly_bool", "dd", "nearlyEquals(a0 > 0., a1 > 0.)",
              lambda vals, V: [("true exactly when both agree", NOT(dag.XOR(vals[0], NOT(dag.XOR(dag.fcmp("ogt", V["as"], const(0.0)), dag.fcmp("ogt", V["bs"], const(0.0)))))))],
              lambda args, got: None if got == ((args[0][0] > 0) == (args[1][0] > 0)) else f"returned {got} for {args}", ret="bool")


def comparisons():
    out = []
    for t in "d" + api.ARRAYS + api.TYPES:
        out += [falses(t), itself(t), default_tol(t)]
    for f in ("nearlyEqualsAbs", "nearlyEqualsRel"):
        out += [falses("d", f), itself("d", f), default_tol("d", f)]
    out += [composite(t) for t in PARTS] + [blade_array(t) for t in "SVBT"]
    out += [f(t) for t in "3SVBTPIM" for f in (equality, equal_self)]
    out += [bools()]
    return out


# ------------------------------------------------------------------ P17
def same(x, y):
    """the same number, bit for bit (any NaN is the same as any other)"""
    if x is y:
        return dag.TRUE
    if x is None or y is None:
        return dag.FALSE
    sg = lambda v: dag.boolc(bool(v.a[0] >> 63)) if dag.isconst(v) and not fdom.isnan_c(v) else dag.mk("fsign", "b", v)
    return OR(AND(nan(x), nan(y)), AND(dag.fcmp("oeq", x, y), NOT(dag.XOR(sg(x), sg(y)))))


def samef(x, y):
    return x != x and y != y or x == y and math.copysign(1, x) == math.copysign(1, y)


INDICES = list(range(12)) + [16, 100, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 2, 2 ** 63, 2 ** 63 + 2 ** 12]


def index(t, write=False):
    """reading by subscript, for every index"""
    n = len(T[t][1])
    names = var_names(t)[0]
    is_m = t == "M"

    def goals(vals, V):
        ix = dag.ivar(64, "n")
        out = []
        for i, v in enumerate(names):
            out.append((f"subscript {i} is component {v[1:]}", OR(NOT(dag.icmp("eq", ix, dag.iconst(64, i))), same(vals[0], V[v]))))
        if not is_m:
            out.append(("NaN for every index out of range", OR(dag.icmp("ult", ix, dag.iconst(64, n)), nan(vals[0]))))
        return out

    def judge(args, got):
        i = int(args[-1][0])
        if i < n:
            return None if samef(got[0], args[0][i]) else f"subscript {i} of {args[0]} is {got[0]!r}"
        return None if is_m or got[0] != got[0] else f"subscript {i} is {got[0]!r}, NaN is required"
    fc = FC(f"index{'w' if write else ''}_{t}", t, "r1" if write else "a0[n]", goals, judge, extra="n", what="operator[]", stmt=f"{T[t][0]} w(a0); double const r1(w[n]); " if write else "",
            gen=lambda r: [[r.uniform(-2, 2) for _ in names], [r.choice(INDICES[:8] if is_m else INDICES)]])
    return fc


def index_write():
    """writing through the multivector subscript changes that component and no other"""
    names = var_names("M")[0]

    def goals(vals, V):
        ix = dag.ivar(64, "n")
        out = []
        for i in range(8):
            here = dag.icmp("eq", ix, dag.iconst(64, i))
            for j in range(8):
                out.append((f"after writing subscript {i}, component {api.COMP[j]}", OR(NOT(here), same(vals[j], V["bs"] if i == j else V[names[j]]))))
        return out

    def judge(args, got):
        i = int(args[-1][0])
        want = list(args[0])
        want[i] = args[1][0]
        return None if all(samef(g, w) for g, w in zip(got, want)) else f"after writing subscript {i}: {got}, expected {want}"
    return FC("index_write_M", "Md", "w", goals, judge, extra="n", stmt="MultiVector w(a0); w[n] = a1; ", what="operator[] (writable)",
              gen=lambda r: [[r.uniform(-2, 2) for _ in range(8)], [r.uniform(-2, 2)], [r.randrange(8)]])


def place(name, params, expr, at, what=None):
    """every output component is the listed operand component, unchanged, or zero.  at: {output index: (operand, position)}"""
    names = var_names(params)

    def goals(vals, V):
        out = []
        for i in range(8):
            if i in at:
                o, k = at[i]
                out.append((f"component {api.COMP[i]} is component {k} of operand {o}", same(vals[i], V[names[o][k]])))
            else:
                out.append((f"component {api.COMP[i]} is zero", dag.fclass(32 | 64, vals[i]) if vals[i] is not None else dag.FALSE))
        return out

    def judge(args, got):
        for i in range(8):
            if i in at:
                w = args[at[i][0]][at[i][1]]
                if not samef(got[i], w):
                    return f"component {api.COMP[i]} is {got[i]!r}, the operand holds {w!r}"
            elif got[i] != 0:
                return f"component {api.COMP[i]} is {got[i]!r}, zero is required"
    return FC(name, params, expr, goals, judge, what=what or expr)


def access():
    out = [index(t) for t in api.TYPES] + [index("M", True), index_write()]
    for t in "d" + api.TYPES[:-1]:
        out.append(place(f"multi_{t}", t, "MultiVector(a0)", {i: (0, k) for k, i in enumerate(T[t][1])}, f"MultiVector({T[t][0]})"))
    for t in api.TYPES:
        out.append(place(f"copy_{t}", t, f"{T[t][0]}(a0)", {i: (0, k) for k, i in enumerate(T[t][1])}))
        out.append(place(f"assign_{t}", t + t, "x", {i: (0, k) for k, i in enumerate(T[t][1])}))
        out[-1].w.pre = f"{T[t][0]} x(a1); x = a0; "
        own = {i: (0, k) for k, i in enumerate(T[t][1])}
        for n, ps, pre in (("move", t, "{0} m(a0); {0} x(std::move(m)); "), ("moveassign", t + t, "{0} m(a0); {0} x(a1); x = std::move(m); "),
                           ("selfassign", t, "{0} x(a0); {0} const & y = x; x = y; "), ("swap", t + t, "{0} x(a1); {0} y(a0); std::swap(x, y); "),
                           ("chain", t + t + t, "{0} x(a1); {0} y(a2); x = y = a0; ")):
            out.append(place(f"{n}_{t}", ps, "x", own, f"{T[t][0]} copied or moved"))
            out[-1].w.pre = pre.format(T[t][0])

    def parts(name, params, expr):
        at = {}
        for o, p in enumerate(params):
            for k, i in enumerate(T[p][1]):
                at[i] = (o, k)
        return place(name, params, expr, at)
    out.append(parts("multi_grades", "SVBT", "MultiVector(a0, a1, a2, a3)"))
    out.append(parts("multi_CD", "CD", "MultiVector(a0, a1)"))
    out.append(place("multi_list", "dddddddd", "MultiVector(a0, a1, a2, a3, a4, a5, a6, a7)", {i: (i, 0) for i in range(8)}))
    for t, (a, b) in {"P": "SB", "I": "VT", "C": "ST", "D": "VB"}.items():
        out.append(parts(f"make_{t}", a + b, f"{T[t][0]}{{a0, a1}}"))
    for t in "SVBT":
        n = len(T[t][1])
        out.append(place(f"make_{t}", "d" * n, f"{T[t][0]}{{" + ", ".join(f"a{k}" for k in range(n)) + "}", {i: (k, 0) for k, i in enumerate(T[t][1])}))
    out.append(place("complex_from", "dd", "ComPlex::from(std::complex<double>(a0, a1))", {0: (0, 0), 7: (1, 0)}))
    out.append(place("complex_to", "C", "static_cast<std::complex<double>>(a0)", {0: (0, 0), 7: (0, 1)}))
    out.append(place("complex_round", "C", "ComPlex::from(static_cast<std::complex<double>>(a0))", {0: (0, 0), 7: (0, 1)}))
    return out
