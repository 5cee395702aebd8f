"""Contracts of the text functions: what insertion writes (P18), what extraction stores (P19), what a round trip restores (P20)."""
import ctypes, math, random, re, time
from fractions import Fraction as Fr
import z3
from . import api, dag, fdom, fcon, iomodel as IO, ir, lib, native, symex
from .api import T, W
from .core import Ob, var_names
from .dag import const, ITE, NOT, AND, OR
from .fcon import FC, SPECIALS, gen_special, has_undef, isvalid, nvalid, path_node, prove, same, nan
from .ir import Unsupported

GR = {"d": [1], "S": [1], "V": [3], "B": [3], "T": [1], "P": [1, 3], "I": [3, 1], "C": [1, 1], "D": [3, 3], "M": [1, 3, 3, 1]}
BIG = 1 << 29
ERRS = (Unsupported, RecursionError, KeyError, NotImplementedError, AssertionError)


class TW(W):
    def __init__(self, name, text):
        W.__init__(self, name, "", "")
        self.text = text


def load(t):
    return f"{T[t][0]} const a0(vx::ld<{T[t][0]}>(p0)); "


# ------------------------------------------------------------------ P18
class Out(FC):
    """expr is inserted into a stream supplied by the caller; sci/prec/width: the format every number must be written with"""

    def __init__(self, name, t, expr, sci, prec, width, ivs=(), what=None):
        FC.__init__(self, name, t, expr, None, None, what=what or expr)
        self.t, self.sci, self.prec, self.width, self.ivs = t, sci, prec, width, ivs
        sz = "".join(f", size_t {v}" for v in ivs)
        self.w = TW(name, f'extern "C" bool {name}(double const* p0, std::ostream& s{sz}) {{ {load(t)}return &(s << {expr}) == &s; }}')
        self.n = TW("n_" + name, f'extern "C" long n_{name}(double const* p0{sz}, int h, char* b, long c) {{ {load(t)}std::ostringstream s; '
                    f'if (h) {{ s << std::scientific << std::showpos << std::setprecision(2) << std::setw(40) << std::left; }} s << {expr}; '
                    f'std::string const r(s.str()); long i = 0; for (; i < (long)r.size() && i < c; ++i) b[i] = r[i]; return i; }}')
        self.gen = self.inputs
        self.njudge = self.check

    WIDE = (21, 31, 32, 63, 64, 100, 127, 128, 255, 256, 300)

    def inputs(self, rnd):
        a = gen_special(self.t, rnd)
        if rnd.random() < .5:
            a = [[rnd.choice([-1, 1]) * 10 ** rnd.uniform(-8, 12) for _ in a[0]]]
        return a + [[rnd.randrange(0, 20) if rnd.random() < .7 else rnd.choice(self.WIDE) for _ in self.ivs] + [rnd.randrange(2)]]

    def ncall(self, prog, args):
        f = getattr(prog.h.so(), "n_" + self.name)
        f.restype = ctypes.c_long
        b = ctypes.create_string_buffer(1 << 15)
        v = (ctypes.c_double * max(1, len(args[0])))(*args[0])
        n = f(v, *[ctypes.c_size_t(int(x)) for x in args[1][:-1]], ctypes.c_int(int(args[1][-1])), b, ctypes.c_long(len(b)))
        return b.raw[:n].decode("latin1")

    def num(self, x, env):
        return x if isinstance(x, int) else env[x] if isinstance(x, str) else x(env)

    def check(self, args, got):
        env = {v: int(x) for v, x in zip(self.ivs, args[1])}
        p, w = self.num(self.prec, env), self.num(self.width, env)
        ms = list(re.finditer(r"[^ \t\n]+", got))
        if len(ms) != len(args[0]):
            return f"writes {len(ms)} numbers for the {len(args[0])} components {args[0]}: {got!r}"
        end = 0
        for m, x in zip(ms, args[0]):
            want = ("nan" if x != x else "inf" if x > 0 else "-inf") if not math.isfinite(x) else "%.*f" % (p, x) if not self.sci else sci(x, p)
            if m.group() != want and not (x != x and m.group() == "-nan"):
                return f"writes {m.group()!r} where {want!r} is required (all: {got!r})"
            if m.end() - end < w:
                return f"field of {want!r} is narrower than {w}: {got!r}"
            end = m.end()
        return None


def sci(x, p):
    s = "%.*e" % (p, x)
    return s


def execute(prog, c, ext=False, failed=False, own=False, events=None):
    """run the wrapper of contract c; -> [(path, output cells, stream ghost)], [(path, why)]"""
    ex = symex.Exec(prog.mod, lib=lib.lib)
    st = symex.State()
    s = ex.alloc(st, 512, "stream", "the caller's stream")
    IO.vtable(ex, st, s, [0])
    IO.new_stream(ex, st, s, ext=ext, failed=failed, flags=IO.SKIPWS | IO.DEC | (0 if ext else IO.SCI | IO.SHOWPOS),
                  prec=dag.iconst(32, 6) if ext else dag.ivar(32, "p0"), width=dag.iconst(32, 0) if ext else dag.ivar(32, "w0"))
    names = var_names(c.t)[0]
    a = ex.alloc(st, 8 * len(names), "in", "argument 0")
    st.mem[a] = {8 * i: (8, dag.var(n)) for i, n in enumerate(names)}
    args = [symex.Ptr(a, 0)] + ([] if own else [symex.Ptr(s, 0)])
    args += [dag.ivar(64, v) for v in getattr(c, "ivs", ())]
    o = None
    if own or ext:
        o = ex.alloc(st, 8 * (len(names) + 1), "out", "result")
        args.append(symex.Ptr(o, 0))
    outs = ex.call("@" + c.name, args, st)
    prog.stats["inlined"] |= ex.inlined
    good, abn = [], []
    for x in outs:
        if x.abn:
            abn.append((x.st.path, x.abn))
            continue
        cells = None
        if o:
            cells = []
            for i in range(len(names) + 1):
                v = x.st.mem[o].get(8 * i)
                v = v[1] if v else None
                cells.append(const(0.0) if isinstance(v, symex.Zero) else v)
        ev = list(x.st.ev) + [("no release of", n) for _, k, n in x.st.size.values() if k == "heap"]
        if events is not None:
            events += [(x.st.path, e) for e in ev]
        elif any("global" in e[0] or "static" in e[0] for e in ev):
            raise Unsupported("the text depends on global state: " + " ".join(ev[0]))
        good.append((x.st.path, x.ret if x.ret is not None else None, cells, x.st.ghost.get((s, "io"))))
    return good, abn


def bv(n, cache):
    from .bvz3 import tr_bool
    return tr_bool(n, cache)


def prove_int(goal, ivs, hyp=()):
    """goal over the digit counts (each below 2^29)"""
    c = {}
    s = z3.Solver()
    s.set("timeout", 20000)
    for v in ivs:
        s.add(bv(dag.icmp("ult", dag.ivar(64, v), dag.iconst(64, BIG)), c))
    s.add(z3.Not(bv(goal, c)))
    fdom.STATS.q += 1
    t = time.time()
    r = s.check()
    fdom.STATS.t += time.time() - t
    return "proved" if r == z3.unsat else "sat" if r == z3.sat else "unknown"


def inode(x, env):
    return dag.iconst(64, x) if isinstance(x, int) else env[x] if isinstance(x, str) else x(env)


class Env(dict):
    def __missing__(self, k):
        return dag.ivar(64, k)


class IExpr:
    """small arithmetic that works on Python ints and on integer nodes"""


def plus(k, *vs):
    def f(env):
        r = None
        for v in vs:
            x = env[v]
            r = x if r is None else (r + x if isinstance(x, int) else dag.ibin("add", r, x))
        return r + k if isinstance(r, int) else dag.ibin("add", r, dag.iconst(64, k))
    return f


def overify(prog, c):
    t0 = time.time()
    ms = lambda: int(1000 * (time.time() - t0))
    if c.name in prog.h.dropped:
        return Ob(c.name, "missing", "the operation does not compile: " + prog.h.dropped[c.name])
    try:
        good, abn = execute(prog, c)
    except ERRS as e:
        return Ob(c.name, "unknown", f"{type(e).__name__}: {e}", ms=ms())
    names = var_names(c.t)[0]
    n = 0
    unk = None

    def holds(path, g, why):
        """prove path -> g"""
        nonlocal unk, n
        n += 1
        g = fdom.simp(OR(NOT(path_node(path)), g), {}, {})
        if g is dag.TRUE:
            return None
        try:
            st, env = prove(g, names, c.timeout)
        except (Unsupported, z3.Z3Exception, KeyError) as e:
            st, env = "unknown", None
        if st == "sat":
            return Ob(c.name, "refuted", why, cex=env, ms=ms())
        if st != "proved":
            unk = unk or why + " (not decided)"
        return None
    try:
        for path, why in abn:
            r = holds(path, dag.FALSE, "abnormal outcome: " + why)
            if r:
                return r
        for path, ret, _, g in good:
            bad = None
            nums = []
            blank = True
            for t in g.toks:
                if isinstance(t, IO.Lit):
                    if t.text.strip(IO.WS):
                        bad = bad or f"writes the text {t.text.strip()!r} besides the numbers"
                    blank = True
                elif isinstance(t, IO.Num):
                    if not blank:
                        bad = bad or f"no blank is written between number {len(nums)} and number {len(nums) + 1}"
                    nums.append(t)
                    blank = False
                elif t.fill not in IO.WS:
                    bad = bad or "pads with " + repr(t.fill)
            if g.failed:
                bad = bad or "leaves the stream failed"
            if len(nums) != len(names):
                bad = f"writes {len(nums)} numbers for {len(names)} components"
            if ret is not dag.TRUE:
                bad = bad or "does not return the stream it was given"
            if bad:
                r = holds(path, dag.FALSE, bad)
                if r:
                    return r
                continue
            for k, (t, v) in enumerate(zip(nums, names)):
                r = holds(path, same(t.val, dag.var(v)), f"number {k + 1} written is not component {v[1:]}")
                if r:
                    return r
                f = t.flags & IO.FLOATFIELD
                if f != (IO.SCI if c.sci else IO.FIXED) or t.flags & IO.UPPER:
                    r = holds(path, dag.FALSE, f"component {v[1:]} is not written in {'scientific' if c.sci else 'fixed'} notation")
                    if r:
                        return r
                E = Env()
                low = lambda x: dag.icast("trunc", 32, x) if not dag.isic(x) else dag.iconst(32, x.a[0] & 0xffffffff)
                for goal, why in ((dag.icmp("eq", t.prec, low(inode(c.prec, E))), f"component {v[1:]} is not written with the requested digits"),
                                  (NOT(dag.icmp("sgt", low(inode(c.width, E)), t.width)), f"the field of component {v[1:]} is narrower than required")):
                    n += 1
                    if t.fill not in IO.WS:
                        goal = dag.FALSE
                    if goal is dag.TRUE:
                        continue
                    st = "sat" if goal is dag.FALSE else prove_int(goal, c.ivs)
                    if st == "sat":
                        r = holds(path, dag.FALSE, why)
                        if r:
                            return r
                    elif st != "proved":
                        unk = unk or why + " (not decided)"
    except ERRS as e:
        return Ob(c.name, "unknown", f"{type(e).__name__}: {e}", ms=ms())
    if unk:
        return Ob(c.name, "unknown", unk, ms=ms())
    return Ob(c.name, "proved", f"{n} goals over the token sequence", "stream ghost state + z3 (QF_FP, QF_BV)", ms=ms())


def outputs():
    out = [Out(f"out_{t}", t, "a0", False, 6, 11, what="operator<<(ostream, value)") for t in api.TYPES]
    for t in "dSVBTPIM":
        out.append(Out(f"fixed_{t}", t, "io::fixed(a0, n, m)", False, "m", plus(2, "n", "m"), ("n", "m"), what="io::fixed(value, before, after)"))
        out.append(Out(f"fixed1_{t}", t, "io::fixed(a0, n)", False, 6, plus(8, "n"), ("n",), what="io::fixed(value, before)"))
        out.append(Out(f"fixed0_{t}", t, "io::fixed(a0)", False, 6, 11, what="io::fixed(value)"))
        out.append(Out(f"enote_{t}", t, "io::enote(a0, n)", True, "n", 0, ("n",), what="io::enote(value, digits)"))
        out.append(Out(f"enote0_{t}", t, "io::enote(a0)", True, 15, 0, what="io::enote(value)"))
    return out


# ------------------------------------------------------------------ P19
class In(FC):
    def __init__(self, t):
        name = f"in_{t}"
        FC.__init__(self, name, t, "s >> r", None, None, what="operator>>(istream, value)")
        self.t = t
        n = len(T[t][1])
        st = store(t)
        body = f"{T[t][0]} r(vx::ld<{T[t][0]}>(p0)); bool const q = &(s >> r) == &s; {st}"
        self.w = TW(name, f'extern "C" void {name}(double const* p0, std::istream& s, double* o) {{ {body} o[{n}] = q ? 1. : 0.; }}')
        self.n = TW("n_" + name, f'extern "C" int n_{name}(double const* p0, char const* x, int f, double* o) {{ std::istringstream s(x); if (f) '
                    f's.setstate(std::ios::failbit); {body} return (s.fail() ? 1 : 0) + (q ? 0 : 2); }}')
        self.gen = self.inputs
        self.njudge = self.check

    WORDS = ["nan", "inf", "-inf", "abc", "1e-310", "-4e-320", "1e999", "-", ".", "x1", "5e-324"]
    NUMS = ["0", "-0", "1", "-1.5", "2.5e3", "1e-300", "+7", "12345.678901", ".5", "5.", "1e308", "2.2250738585072014e-308"]

    def inputs(self, rnd):
        n = len(T[self.t][1])
        ws = []
        p = rnd.choice([0, 0, .1, .3])
        for _ in range(rnd.choice([n, n, n, n + 2, max(0, n - 1), rnd.randrange(n + 1)])):
            ws.append(rnd.choice(self.WORDS) if rnd.random() < p else rnd.choice(self.NUMS) if rnd.random() < .5 else repr(rnd.uniform(-9, 9)))
        sep = rnd.choice([" ", "\n", "\t  "])
        return [[rnd.uniform(-2, 2) for _ in range(n)], [rnd.choice(["", " ", "\n"]) + sep.join(ws) + rnd.choice(["", " ", "\n"])], [int(rnd.random() < .05)]]

    def ncall(self, prog, args):
        f = getattr(prog.h.so(), "n_" + self.name)
        f.restype = ctypes.c_int
        n = len(T[self.t][1])
        o = (ctypes.c_double * (n + 1))()
        v = (ctypes.c_double * n)(*args[0])
        r = f(v, ctypes.c_char_p(args[1][0].encode()), ctypes.c_int(int(args[2][0])), o)
        return list(o)[:n], r

    def check(self, args, got):
        vals, r = got
        words = args[1][0].split()
        n = len(vals)
        good = []
        k = 0
        if not args[2][0]:
            for w in words[:n]:
                if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", w) or not isvalid(float(w)):
                    break
                k += 1
        if r & 2:
            return "does not return the stream it was given"
        if k == n:
            want = [float(w) for w in words[:n]]
            if vals != want:
                return f"reads {vals} from {args[1][0]!r}"
            return "reports failure although every number was read" if r & 1 else None
        g = 0
        for s in GR[self.t]:
            if g <= k < g + s:
                if not all(x != x for x in vals[g:g + s]):
                    return f"read of number {k + 1} of {args[1][0]!r} fails or is not valid, yet its grade is {vals[g:g + s]}"
            g += s
        bad = k >= len(words) or not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?", words[k]) or not math.isfinite(float(words[k]))
        if (bad or args[2][0]) and not r & 1:
            return f"the failure reading {args[1][0]!r} is not left visible in the stream"
        return None


def store(t):
    """write the components of r to o, one after the other"""
    n = T[t][0]
    return f"double w8[8]; vx::st(w8, r); " + " ".join(f"o[{k}] = w8[{i}];" for k, i in enumerate(T[t][1]))


def iverify(prog, c):
    t0 = time.time()
    ms = lambda: int(1000 * (time.time() - t0))
    if c.name in prog.h.dropped:
        return Ob(c.name, "missing", "the operation does not compile: " + prog.h.dropped[c.name])
    n = len(T[c.t][1])
    ok = [dag.mk("bvar", "b", f"ok{k}") for k in range(n)]
    xs = [dag.var(f"x{k}") for k in range(n)]
    goals = []
    try:
        for failed in (False, True):
            good, abn = execute(prog, c, ext=True, failed=failed)
            for path, why in abn:
                goals.append((path, dag.FALSE, "abnormal outcome: " + why))
            for path, _, v, g in good:
                A = lambda f, why: goals.append((path, f, why))
                A(dag.fcmp("oeq", v[n], const(1.0)), "returns the stream it was given")
                out = v[:n]
                if any(x is None for x in out):
                    A(dag.FALSE, "a component is never written")
                    continue
                invalid = dag.FALSE
                for x in out:
                    invalid = OR(invalid, NOT(nvalid(x)))
                if failed:
                    A(AND(invalid, dag.boolc(g.failed)), "a stream that has already failed yields an invalid value and stays failed")
                    for x in out:
                        A(nan(x), "a stream that has already failed yields null components")
                    continue
                okv = [AND(o, nvalid(x)) for o, x in zip(ok, xs)]
                al = fcon.allof(okv)
                full = al
                for k in range(n):
                    A(OR(NOT(full), same(out[k], xs[k])), f"component {k} is number {k + 1} of the text")
                A(OR(NOT(full), dag.boolc(not g.failed and g.nread == n)), "reads exactly as many numbers as there are components and leaves the stream good")
                st = 0
                pre = dag.TRUE
                for s in GR[c.t]:
                    for j in range(st, st + s):
                        first = AND(pre, NOT(okv[j]))
                        for i in range(st, st + s):
                            A(OR(NOT(first), nan(out[i])), f"the grade whose number {j + 1} cannot be read or is not valid is null")
                        A(OR(NOT(AND(pre, NOT(ok[j]))), dag.boolc(g.failed)), "a failed read is left visible in the stream")
                        pre = AND(pre, okv[j])
                    st += s
                A(dag.boolc(g.failed or not g.ever), "no read failure is hidden from the caller")
                anybad = dag.FALSE
                for k in range(g.nread):
                    okk, xk = dag.mk("bvar", "b", f"ok{k}"), dag.var(f"x{k}")
                    anybad = OR(anybad, NOT(AND(okk, nvalid(xk))))
                A(OR(NOT(anybad), invalid), "any failed or not valid number makes the value not valid")
    except ERRS as e:
        return Ob(c.name, "unknown", f"{type(e).__name__}: {e}", ms=ms())
    unk = None
    z = 0
    for path, f, why in goals:
        known = {}
        pn = path_node(path)
        g = OR(NOT(pn), f)
        if g is dag.TRUE:
            continue
        g = assume(f, path)
        if g is dag.TRUE:
            continue
        z += 1
        g = OR(NOT(pn), g)
        try:
            st, env = prove(g, [], c.timeout)
        except (Unsupported, z3.Z3Exception, KeyError) as e:
            st = "unknown"
        if st == "sat":
            return Ob(c.name, "refuted", "not established: " + why, ms=ms())
        if st != "proved":
            unk = unk or why + " (not decided)"
    if unk:
        return Ob(c.name, "unknown", unk, ms=ms())
    return Ob(c.name, "proved", f"{len(goals)} goals, {z} by z3", "stream ghost state + z3 (QF_FP)", ms=ms())


def assume(f, path):
    """f with the decisions of the path substituted"""
    d = {c.id: dag.boolc(p) for c, p in path}
    cache = {}
    for x in dag.walk([f]):
        if x.id in d:
            cache[x.id] = d[x.id]
        else:
            cache[x.id] = fdom._simp(x, {}, cache)
    return cache[f.id]


def inputs():
    return [In(t) for t in api.TYPES]


# ------------------------------------------------------------------ P20
class Trip(FC):
    """text of expr read back into the same type"""

    def __init__(self, name, t, expr, sci, prec, ivs=(), what=None):
        FC.__init__(self, name, t, expr, None, None, what=what or expr + ", read back")
        self.t, self.sci, self.prec, self.ivs = t, sci, prec, ivs
        n = len(T[t][1])
        sz = "".join(f", size_t {v}" for v in ivs)
        body = f"{load(t)}std::stringstream s; s << {expr}; {T[t][0]} r(a0); r = null<{T[t][0]}>(); s >> r; {store(t)} o[{n}] = s.fail() ? 0. : 1.;"
        self.w = TW(name, f'extern "C" void {name}(double const* p0{sz}, double* o) {{ {body} }}')
        self.gen = self.inputs
        self.njudge = self.check

    def inputs(self, rnd):
        n = len(T[self.t][1])
        e = rnd.choice([1, 3, 12, 290])
        v = [rnd.choice([-1, 1]) * 10 ** rnd.uniform(-e, e) if rnd.random() < .85 else rnd.choice([0.0, -0.0, 1.0, 999.9999999]) for _ in range(n)]
        return [v, [rnd.randrange(1, 20) for _ in self.ivs] + [0]]

    def ncall(self, prog, args):
        f = getattr(prog.h.so(), self.name)
        f.restype = None
        n = len(T[self.t][1])
        o = (ctypes.c_double * (n + 1))()
        v = (ctypes.c_double * n)(*args[0])
        f(v, *[ctypes.c_size_t(int(x)) for x in args[1][:-1]], o)
        return list(o)

    def check(self, args, got):
        env = {v: int(x) for v, x in zip(self.ivs, args[1])}
        p = self.prec if isinstance(self.prec, int) else env[self.prec]
        n = len(args[0])
        if got[n] != 1:
            return f"the text of {args[0]} cannot be read back"
        for k, (x, y) in enumerate(zip(args[0], got)):
            if not math.isfinite(y):
                return f"component {k} of {args[0]} is read back as {y}"
            d = abs(Fr(y) - Fr(x))
            if self.sci:
                e = math.floor(math.log10(abs(x))) if x else 0
                tol = Fr(10) ** (e - p) * Fr(51, 100) + abs(Fr(x)) * Fr(2) ** -52
            else:
                tol = Fr(10) ** -p * Fr(51, 100) + abs(Fr(x)) * Fr(2) ** -52
            if d > tol:
                return f"component {k} of {args[0]} is read back as {y!r}"
        return None


def tverify(prog, c):
    t0 = time.time()
    ms = lambda: int(1000 * (time.time() - t0))
    if c.name in prog.h.dropped:
        return Ob(c.name, "missing", "the operation does not compile: " + prog.h.dropped[c.name])
    names = var_names(c.t)[0]
    n = len(names)
    goals = []
    try:
        good, abn = execute(prog, c, own=True)
        E = Env()
        p = inode(c.prec, E)
        p = dag.iconst(32, p.a[0]) if dag.isic(p) else dag.icast("trunc", 32, p)
        fl = dag.iconst(32, IO.SCI if c.sci else IO.FIXED)
        rr = [dag.mk("fn", "d", "reread", dag.var(v), fl, p) for v in names]
        dom = AND(fcon.allof(nvalid(dag.var(v)) for v in names), fcon.allof(nvalid(r) for r in rr))
        for path, why in abn:
            goals.append((path, NOT(dom), "abnormal outcome: " + why))
        for path, _, v, g in good:
            for k in range(n):
                goals.append((path, OR(NOT(dom), same(v[k], rr[k])), f"component {names[k][1:]} is restored from its own text"))
            goals.append((path, OR(NOT(dom), dag.fcmp("oeq", v[n], const(1.0))) if v[n] is not None else dag.FALSE, "every read succeeds"))
    except ERRS as e:
        return Ob(c.name, "unknown", f"{type(e).__name__}: {e}", ms=ms())
    unk = None
    z = 0
    for path, f, why in goals:
        g = assume(f, path)
        if g is dag.TRUE:
            continue
        z += 1
        try:
            st, env = prove(OR(NOT(path_node(path)), g), names, c.timeout)
        except (Unsupported, z3.Z3Exception, KeyError) as e:
            st = "unknown"
        if st == "sat":
            return Ob(c.name, "refuted", "not established: " + why, cex=env, ms=ms())
        if st != "proved":
            # a number whose text is not the required one: 'reread' nodes differ
            unk = unk or why + " (not decided)"
    if unk:
        return Ob(c.name, "unknown", unk, ms=ms())
    return Ob(c.name, "proved", f"{len(goals)} goals, {z} by z3", "stream ghost state + z3 (QF_FP)", ms=ms())


def trips():
    out = [Trip(f"trip_{t}", t, "a0", False, 6, what="operator<< then operator>>") for t in api.TYPES]
    for t in "SVBTPIM":
        out.append(Trip(f"tripe_{t}", t, "io::enote(a0)", True, 15, what="io::enote then operator>>"))
        out.append(Trip(f"tripn_{t}", t, "io::enote(a0, n)", True, "n", ("n",), what="io::enote(digits) then operator>>"))
        out.append(Trip(f"tripf_{t}", t, "io::fixed(a0, n, m)", False, "m", ("n", "m"), what="io::fixed then operator>>"))
    return out
