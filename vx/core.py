"""Contracts, obligations and the front end shared by all property checks."""
import itertools, json, math, os, random, re, time, traceback
from fractions import Fraction as Fr
import mpmath
from . import api, dag, edom, harness, ir, lib, poly as P, rdom, spec, symex
from .api import T, W
from .dag import N
from .ir import Unsupported
from .poly import Poly, pc, ZERO, ONE
from .rdom import Ctx, Split, Sp, NAN, PINF, NINF, BAD, explore

EPS = 2.0 ** -53


# ------------------------------------------------------------------ the arithmetic the specifications are written over
class RK:
    """exact real terms on one decision branch"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.zero, self.one, self.pi = ZERO, ONE, P.PI
        self.nan = NAN

    def num(self, x):
        return pc(Fr(x))

    def truth(self, rel, p):
        return self.ctx.truth(rel, p)

    def sqrt(self, p):
        return P.sqrt(ZERO if self.ctx.known_zero(p) else p)

    def exp(self, p):
        return P.exp(p)

    def log(self, p):
        return P.log(p)

    def cos(self, p):
        return P.cos(p)

    def sin(self, p):
        return P.sin(p)

    def atan2(self, y, x):
        return self.ctx.fn("atan2", [y, x])

    def csqrt(self, x, y):
        return self.ctx.fn("csqrt_re", [x, y]), self.ctx.fn("csqrt_im", [x, y])

    def ccosh(self, x, y):
        return self.ctx.fn("ccosh_re", [x, y]), self.ctx.fn("ccosh_im", [x, y])

    def csinh(self, x, y):
        return self.ctx.fn("csinh_re", [x, y]), self.ctx.fn("csinh_im", [x, y])

    def div(self, a, b):
        return a * P.inv(b)

    def prod(self, *f):
        return math.prod(f[1:], start=f[0])


class NK:
    """multi-precision numbers: the oracle for replayed inputs"""

    def prod(self, *f):
        return math.prod(f[1:], start=f[0])

    def __init__(self):
        self.zero, self.one, self.pi = mpmath.mpf(0), mpmath.mpf(1), mpmath.pi()
        self.nan = mpmath.mpf("nan")

    def num(self, x):
        x = Fr(x)
        return mpmath.mpf(x.numerator) / x.denominator

    def truth(self, rel, p):
        return {"gt": p > 0, "ge": p >= 0, "eq": p == 0, "ne": p != 0, "lt": p < 0, "le": p <= 0}[rel]

    sqrt = staticmethod(mpmath.sqrt)
    exp = staticmethod(mpmath.exp)
    log = staticmethod(mpmath.log)
    cos = staticmethod(mpmath.cos)
    sin = staticmethod(mpmath.sin)
    atan2 = staticmethod(mpmath.atan2)

    def csqrt(self, x, y):
        z = mpmath.sqrt(mpmath.mpc(x, y))
        return z.real, z.imag

    def ccosh(self, x, y):
        z = mpmath.cosh(mpmath.mpc(x, y))
        return z.real, z.imag

    def csinh(self, x, y):
        z = mpmath.sinh(mpmath.mpc(x, y))
        return z.real, z.imag

    def div(self, a, b):
        return a / b


class Maj:
    """a term with every sign made positive: the sum of absolute values of what makes a result up"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __bool__(self):
        return bool(self.p)

    def __add__(self, o):
        return Maj(self.p + (o.p if isinstance(o, Maj) else pc(abs(Fr(o)))))
    __radd__ = __sub__ = __rsub__ = __add__

    def __mul__(self, o):
        return Maj(self.p * (o.p if isinstance(o, Maj) else pc(abs(Fr(o)))))
    __rmul__ = __mul__

    def __neg__(self):
        return self


class MK:
    zero, one = Maj(ZERO), Maj(ONE)

    def num(self, x):
        return Maj(pc(abs(Fr(x))))


class NMaj:
    """numeric version of Maj"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = abs(mpmath.mpf(p))

    def __bool__(self):
        return bool(self.p)

    def __add__(self, o):
        return NMaj(self.p + (o.p if isinstance(o, NMaj) else abs(o)))
    __radd__ = __sub__ = __rsub__ = __add__

    def __mul__(self, o):
        return NMaj(self.p * (o.p if isinstance(o, NMaj) else abs(o)))
    __rmul__ = __mul__

    def __neg__(self):
        return self


class NMK:
    zero, one = NMaj(0), NMaj(1)

    def num(self, x):
        return NMaj(mpmath.mpf(Fr(x).numerator) / Fr(x).denominator)


# ------------------------------------------------------------------ contracts
class C:
    """contract of one library function (or of a client expression over library functions)

    w      the wrapper that enters the code
    spec   spec(K, *args in 8-component form) -> list of 8 (16 for magnitude/direction pairs) components, or None for 'null'
    pre    pre(K, *args) -> list of (relation, term) assumed
    """

    def __init__(self, name, params, expr, spec, ret="mv", pre=None, strict=True, poly=False, rt=None, callee=True, gen=None, dom=None, ens=None, njudge=None,
                 tol=None, roundings=None, relative=False, pre_expr="", stmt=None, what=None, special=None, notvalid=(), exact=None, split_pre=False,
                 acc=None, acclim=None, accnames=None, accre=None):
        self.w = W(name, params, expr, ret=ret, pre=pre_expr)
        self.name, self.params, self.expr, self.ret = name, params, expr, ret
        self.spec, self.pre, self.strict = spec, pre, strict
        self.tight = ret == "bool"    # the contract leaves room for rounding itself
        self.poly = poly              # polynomial: rounding contract by majorants
        self.rt = rt                  # result type letter ('d' for double) when it can be used at call sites
        self.callee = callee
        self.gen = gen                # numeric input generator for replay / bounded stand-in
        self.tol = tol                # tolerance rule for replay
        self.roundings = roundings    # maximal rounding count (None: 64)
        self.relative = relative
        self.what = what or expr
        self.ens, self.njudge = ens, njudge
        self.exact = exact            # operands-free contracts: the very doubles required
        self.special, self.notvalid = special or {}, notvalid
        self.split_pre = split_pre      # the precondition itself distinguishes cases
        self.acc, self.acclim, self.accnames, self.accre = acc, acclim, accnames, accre      # accuracy clause, in units of 2^-53
        self.dom = dom or ('finite' if poly or relative else 'valid')

    def call(self, ctx, args):
        """at a call site (args: flat list of component terms)"""
        if any(isinstance(a, Sp) for a in args) or self.spec is None:
            raise NeedBody(self.name)
        a = self.split_args(args, ZERO)
        k = RK(ctx)
        if self.pre:
            for rel, p in self.pre(k, *a):
                if not ctx.truth(rel, p):
                    raise NeedBody(self.name)
        if self.dom == "valid":
            for x in args:
                if not isvalid_known(ctx, x):
                    raise NeedBody(self.name)
        r = self.spec(k, *a)
        if self.ret == "bool":
            return [r]
        if isinstance(r, Any):
            raise NeedBody(self.name)
        out = []
        for part in parts(r, 2 if self.ret == "md" else 1):
            if part is None:
                raise NeedBody(self.name)
            out += part
        return out

    def split_args(self, flat, zero):
        out = []
        i = 0
        for t in self.params:
            n = len(T[t][1])
            out.append(spec.lift(t, flat[i:i + n], zero))
            i += n
        return out


class Any(list):
    """several acceptable results"""


def parts(r, n):
    """a specification result as a list of n parts, each a list of 8 components or None (null)"""
    if r is None:
        return [None] * n
    if isinstance(r, tuple):
        return list(r)
    return [r[8 * i:8 * i + 8] for i in range(n)]


def isvalid_known(ctx, p):
    """the term denotes zero or a normal number: exact constants and input variables only, unless underflow is set aside"""
    return not ctx.strict or p.isconst() or (len(p.d) == 1 and list(p.d.values())[0] in (1, -1) and len(list(p.d)[0]) == 1 and
                                             P.Atom.lst[list(p.d)[0][0][0]].name in ctx.valid and list(p.d)[0][0][1] == 1)


class NeedBody(Exception):
    """a contract was applied outside its domain: the callee must be verified inline here"""

    def __init__(self, cid):
        self.cid = cid


class Ob:
    """a proof obligation and what became of it"""

    def __init__(self, name, status, detail="", backend="", cex=None, ms=0, kind="real"):
        self.name, self.status, self.detail, self.backend, self.cex, self.ms, self.kind = name, status, detail, backend, cex, ms, kind


# ------------------------------------------------------------------ front end
class Res:
    """what a wrapper computes: its outcomes"""

    def __init__(self, outs, o, nout, ret, ex):
        self.outs = []
        self.abn = []
        self.events = set()
        self.ev = []
        for x in outs:
            self.events |= set(x.st.ev)
            leak = [n for s, k, n in x.st.size.values() if k == "heap"]
            self.ev += [(x.st.path, e) for e in x.st.ev] + [(x.st.path, ("no release of", n)) for n in leak]
            if x.abn:
                self.abn.append((x.st.path, x.abn))
                continue
            if ret in ("bool", "int"):
                vals = [x.ret]
            else:
                cells = x.st.mem[o]
                vals = []
                for i in range(nout):
                    c = cells.get(8 * i)
                    v = c[1] if c else None
                    if isinstance(v, symex.Zero):
                        v = dag.const(0.0)
                    vals.append(v if c and c[0] == 8 else None)
            self.outs.append((x.st.path, vals))
        self.inlined = ex.inlined
        self.external = ex.external
        self.used = ex.used_contracts

    def nodes(self):
        r = []
        for p, v in self.outs:
            r += [c for c, _ in p] + [x for x in v if isinstance(x, N)]
        for p, _ in self.abn:
            r += [c for c, _ in p]
        return r


def var_names(params):
    return [[f"{'abcdefgh'[k]}{api.COMP[i]}" for i in T[t][1]] for k, t in enumerate(params)]


class Program:
    """the current tree, compiled and ready for contract checking"""

    def __init__(self, contracts, extra_wrappers=(), extra_prelude=""):
        self.cs = {c.name: c for c in contracts}
        self.h = harness.Harness([c.w for c in contracts] + list(extra_wrappers), extra_prelude=extra_prelude)
        self.h.build()
        self.mod = self.h.mod
        self.callee = {}          # mangled name -> contract name
        self.status = {}          # contract name -> True/False/None
        self.stats = {"functions": set(), "inlined": set()}
        for c in contracts:
            if c.callee and c.name not in self.h.dropped:
                m = self.find_callee(c)
                if m and m not in self.callee:
                    self.callee[m] = c.name
        self.rcallee = {v: k for k, v in self.callee.items()}

    def close(self):
        self.h.close()

    def find_callee(self, c):
        f = self.mod.functions.get("@" + c.name)
        if f is None:
            return None
        names = set()
        for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
            for ins in b:
                if ins.op in ("call", "invoke") and ins.a["callee"][0] == "glob":
                    m = ins.a["callee"][1][1:]
                    if m.startswith("_ZN7engabra2g3") and not re.search(r"C[12]E", m):
                        names.add(m)
        return names.pop() if len(names) == 1 else None

    # ---------------------------------------------------------------- call-site use of contracts
    def handler(self, cid):
        c = self.cs[cid]

        def h(ex, st, args, ins):
            sret = None
            vals = list(args)
            f = self.mod.functions.get("@" + self.rcallee[cid])
            if f is None:
                return None
            ps = f.params
            if ps and "sret" in str(ps[0][2]):
                sret = vals.pop(0)
                ps = ps[1:]
            if len(vals) != len(c.params):
                return None
            flat = []
            for v, (t, r, at), tl in zip(vals, ps, c.params):
                n = len(T[tl][1])
                if t.k == "double" and n == 1:
                    flat.append(v)
                elif t.k == "ptr":
                    for i in range(n):
                        p = _off(v, 8 * i)
                        x, e = ex.load(st, p, ir.DOUBLE)
                        if e:
                            return None
                        flat.append(x)
                else:
                    return None
            if c.ret == "bool":
                return [symex.Out(st, dag.spec(cid, 0, "b", *flat))]
            if c.rt is None:
                return None
            if c.ret == "md":
                comps = [0] + [8 + i for i in T[c.rt][1]]
            else:
                comps = list(T[c.rt][1])
            outv = [dag.spec(cid, i, "d", *flat) for i in comps]
            if sret is not None:
                for i, v in enumerate(outv):
                    rs = ex.store(st, _off(sret, 8 * i), ir.DOUBLE, v)
                    if len(rs) != 1 or rs[0][1]:
                        return None
                    st = rs[0][0]
                return [symex.Out(st, None)]
            rt = self.mod.resolve(f.ret)
            if rt.k == "double" and len(outv) == 1:
                return [symex.Out(st, outv[0])]
            if rt.k in ("struct", "pstruct") and len(rt.a) == len(outv) and all(self.mod.resolve(x).k == "double" for x in rt.a):
                return [symex.Out(st, symex.Agg(outv))]
            return None
        return h

    def execute(self, name, use=(), params=None, ret=None, ivars=(), impure=False, equal=None, alias=False):
        """symbolically execute wrapper `name`; callees in `use` (contract names) are replaced by their contracts"""
        w = self.h.ws[name]
        params = w.params if params is None else params
        ret = ret or w.ret
        cont = {self.rcallee[c]: self.handler(c) for c in use if c in self.rcallee}
        ex = symex.Exec(self.mod, contracts=cont, lib=lib.lib)
        st = symex.State()
        args = []
        ns = var_names(params)
        for k, names in enumerate(ns):
            if equal and k in equal:          # an operand equal to an earlier one: the same object, or another with the same contents
                if alias:
                    args.append(args[equal[k]])
                    continue
                names = ns[equal[k]]
            a = ex.alloc(st, 8 * len(names), "in", f"argument {k}")
            st.mem[a] = {8 * i: (8, dag.var(n)) for i, n in enumerate(names)}
            args.append(symex.Ptr(a, 0))
        args += list(ivars)
        nout = 16 if ret == "md" else 8
        o = None
        if ret not in ("bool", "int"):
            o = ex.alloc(st, 8 * nout, "out", "result")
            args.append(symex.Ptr(o, 0))
        outs = ex.call("@" + name, args, st)
        r = Res(outs, o, nout, ret, ex)
        if not impure and any("global" in e[0] or "static" in e[0] for e in r.events):
            raise Unsupported("the result depends on global state: " + ", ".join(sorted(" ".join(e) for e in r.events)))
        self.stats["inlined"] |= r.inlined
        self.stats["functions"].add(name)
        return r

    def deps(self, name):
        """contracts reachable from wrapper `name`, excluding its own subject"""
        seen = set()
        out = []
        todo = ["@" + name]
        own = self.rcallee.get(name)
        while todo:
            f = self.mod.functions.get(todo.pop())
            if f is None:
                continue
            for b in f.blocks.values():
                for ins in b:
                    if ins.op in ("call", "invoke") and ins.a["callee"][0] == "glob":
                        m = ins.a["callee"][1]
                        if m in seen:
                            continue
                        seen.add(m)
                        if m[1:] in self.callee and m[1:] != own:
                            out.append(self.callee[m[1:]])
                        todo.append(m)
        return out


def _off(p, n):
    if isinstance(p, symex.PIte):
        return symex.PIte(p.c, _off(p.x, n), _off(p.y, n))
    return symex.Ptr(p.al, p.off + n)


# ------------------------------------------------------------------ verification of one contract
class Fail(Exception):
    """definite refutation on a branch"""

    def __init__(self, why, env=None, ctx=None):
        self.why, self.env, self.ctx = why, env, ctx


class Unknown(Exception):
    pass


class Infeasible(Exception):
    """the branch turned out to be impossible"""


def closed(n):
    """value of an operand-free double, by IEEE arithmetic"""
    if n is None:
        raise Unknown("result component is never written")
    if n.op == "const":
        return dag.cval(n)
    if n.op in ("fadd", "fsub", "fmul", "fdiv", "fneg"):
        a = [closed(x) for x in n.a if isinstance(x, N)]
        if n.op == "fneg":
            return -a[0]
        if n.op == "fdiv":
            return a[0] / a[1] if a[1] else math.nan
        return {"fadd": a[0] + a[1], "fsub": a[0] - a[1], "fmul": a[0] * a[1]}[n.op]
    if n.op == "fn" and n.a[0] == "fma":
        a = [closed(x) for x in n.a[1:]]
        if all(math.isfinite(x) for x in a):
            v = Fr(a[0]) * Fr(a[1]) + Fr(a[2])
            return float(v) if v else a[0] * a[1] + a[2]
    if n.op == "fn" and n.a[0] in ("fabs", "sqrt"):
        a = closed(n.a[1])
        return abs(a) if n.a[0] == "fabs" else math.sqrt(a) if a >= 0 else math.nan
    raise Unknown("constant not evaluated: " + n.op + (" " + n.a[0] if n.op == "fn" else ""))


def fail(ctx, why, env=None):
    """the contract is broken on this branch, provided the branch is possible"""
    if env == {}:
        raise Fail(why, env, ctx)
    env = env or next(iter(ctx.samples), None)
    if env is None:
        q, m = rdom.zcheck(ctx.facts, ctx.valid, want_model=True)
        if q == "unsat":
            raise Infeasible()
        if q == "unknown" or (m and m.get("__weak__")):
            raise Unknown(why + " (on a branch not known to be possible)")
        env = m
    raise Fail(why, env, ctx)


def select(ctx, res):
    """the outcome taken on this branch"""
    for path, why in res.abn:
        if all(ctx.cond(c) == pol for c, pol in path):
            fail(ctx, "abnormal outcome: " + why)
    for path, vals in res.outs:
        if all(ctx.cond(c) == pol for c, pol in path):
            return vals
    raise Unknown("no outcome selected")


def evl(ctx, n):
    if n is None:
        fail(ctx, "result component is never written")
    if has_undef(n):
        # an undef below may sit on a branch that is not taken
        try:
            return ctx.ev(n)
        except Unsupported as e:
            if "undef" in str(e):
                fail(ctx, "result depends on uninitialised memory")
            raise
    return ctx.ev(n)


def decides_on_rounded(res):
    return any(n.op in ("fcmp", "fclass", "fsign") and not all(rdom.held(x) for x in n.a if isinstance(x, N)) for n in dag.walk(res.nodes()))


_hu = {}


def has_undef(n):
    r = _hu.get(n.id)
    if r is None:
        for x in dag.walk([n]):
            _hu[x.id] = x.op == "undef" or any(_hu[y.id] for y in x.a if isinstance(y, N))
        r = _hu[n.id]
    return r


def compare(ctx, got, want):
    """obligations got == want on this branch; want: list of parts"""
    for q, wp in enumerate(want):
        gp = got[8 * q:8 * q + 8]
        if wp is None:
            if not any(isinstance(g, Sp) for g in gp):
                fail(ctx, "a finite result is returned where the contract requires null (not valid)")
            continue
        for i, (g, w) in enumerate(zip(gp, wp)):
            nm = api.COMP[i % 8]
            if isinstance(g, Sp):
                fail(ctx, f"component {nm} of the result is {g}, expected a number")
            if g == w:
                continue
            require(ctx, "eq", g - w, f"component {nm} of the result is not what the contract requires")


def anyof(ctx, got, alts):
    err = None
    for a in alts:
        try:
            compare(ctx, got, [a])
            return
        except (Fail, Unknown) as e:
            err = err or e
    raise err


def firstof(ctx, alts):
    err = None
    for a in alts:
        try:
            for nm, rel, term, _ in a:
                require(ctx, rel, term, nm)
            return
        except (Fail, Unknown) as e:
            err = err or e
    raise err


def require(ctx, rel, p, why):
    st, env = ctx.refute(rel, p)
    if st == "sat":
        fail(ctx, why, env)
    if st == "unknown":
        raise Unknown(why + " (not decided)")


def verify(prog, c, use=(), seed=1, contracts=None, post=None):
    """Discharge contract c of the current tree.  Returns a list of Ob: the contract, then its accuracy clause if it has one."""
    t0 = time.time()
    open_acc = []
    if c.name in prog.h.dropped:
        return [Ob(c.name, "missing", "the operation does not compile: " + prog.h.dropped[c.name])]
    use = [u for u in use if u != c.name]
    obs = []
    P_contracts = prog.cs
    while True:
        try:
            res = prog.execute(c.name, use)
            leaves = [0]
            mx = {"k": 0}

            def leaf(ctx):
                try:
                    leaf1(ctx)
                except Infeasible:
                    pass

            def leaf1(ctx):
                k = RK(ctx)
                args = c.split_args([ctx.ev(dag.var(n)) for ns in var_names(c.params) for n in ns], ZERO)
                if c.split_pre:
                    for rel, p in c.pre(k, *args):
                        if not ctx.truth(rel, p):
                            return
                want = spec0 = c.spec(k, *args) if c.spec else None
                vals = select(ctx, res)
                if c.ret == "bool":
                    if want is None:          # either answer is acceptable
                        leaves[0] += 1
                        return
                    g = ctx.cond(vals[0])
                    leaves[0] += 1
                    if g != want:
                        fail(ctx, f"returns {g} where the contract requires {want}")
                    return
                if c.exact is not None:
                    for i, (v, w) in enumerate(zip(vals, c.exact)):
                        g = closed(v)
                        if not (g == w or (g != g and w != w)):
                            fail(ctx, f"component {api.COMP[i % 8]} is {g!r}, the contract requires {w!r}", {})
                    leaves[0] += 1
                    return
                got = [evl(ctx, v) for v in vals]
                if c.spec and isinstance(want, Any):
                    anyof(ctx, got, want)
                elif c.spec:
                    want = parts(want, 2 if c.ret == "md" else 1)
                    compare(ctx, got, want)
                    flat = [x for p in want for x in (p or [None] * 8)]
                    if c.poly:
                        rounding(ctx, c, vals, args, mx)
                    if c.relative:
                        relrounding(ctx, c, vals, flat, mx)
                if c.ens:
                    if any(isinstance(g, Sp) for g in got):
                        fail(ctx, "the result is not a number")
                    e = c.ens(k, got, *args)
                    if isinstance(e, Any):
                        firstof(ctx, e)
                    else:
                        for nm, rel, term, _ in e:
                            require(ctx, rel, term, nm)
                if c.acc and not use and not open_acc and (c.ens or want is not None):
                    accuracy(ctx, c, k, vals, args, spec0, open_acc)
                leaves[0] += 1
                if post:
                    post(ctx, k, args, got, want)

            ctx = new_ctx(c, res, seed, P_contracts)
            n = explore(ctx, leaf)
            if not n:
                return [Ob(c.name, "vacuous", "no branch satisfies the precondition")]
            if (c.poly or c.relative and not c.pre) and c.exact is None and decides_on_rounded(res):
                # the rounding bounds above hold if those decisions agree with exact arithmetic: show they do not matter
                ctx = new_ctx(c, res, seed, P_contracts)
                ctx.loose = {}
                try:
                    explore(ctx, leaf)
                except Fail as e:
                    raise Unknown("the result rests on a comparison of rounded values")
            obs.append(Ob(c.name, "proved", f"{n} branch(es)" + (f", at most {mx['k']} roundings" if mx["k"] else ""),
                          "real-arithmetic normal form + z3", ms=int(1000 * (time.time() - t0))))
            if c.acc and not use:
                obs.append(Ob(c.name + "_accuracy", "unknown", open_acc[0]) if open_acc else
                           Ob(c.name + "_accuracy", "proved", f"{n} branch(es)", "forward error analysis over exact real terms"))
            return obs
        except NeedBody as e:
            if e.cid not in use:
                return [Ob(c.name, "unknown", "contract of " + e.cid + " applied outside its domain")]
            use = [u for u in use if u != e.cid]
            continue
        except Fail as e:
            if use:
                use = []          # decide with the bodies before judging
                continue
            return [Ob(c.name, "refuted", e.why, cex=clean_env(e.env), ms=int(1000 * (time.time() - t0)))]
        except (Unknown, Unsupported, Split, RecursionError, KeyError, NotImplementedError, AssertionError, ZeroDivisionError) as e:
            if use:
                use = []
                continue
            return [Ob(c.name, "unknown", f"{type(e).__name__}: {e}", ms=int(1000 * (time.time() - t0)))]


def accuracy(ctx, c, k, vals, args, want, bad):
    """the accuracy clause on one branch; what is not shown goes to bad"""
    from . import errdom
    try:
        errdom.check(ctx, c, k, vals, args, want)
    except (Split, Infeasible):
        raise
    except Fail as e:
        bad.append(e.why)
    except (errdom.Open, Unknown, Unsupported, RecursionError, KeyError, NotImplementedError, AssertionError, ZeroDivisionError, ValueError,
            AttributeError, TypeError) as e:
        bad.append(f"{type(e).__name__}: {e}")


def clean_env(env):
    if not env:
        return None
    return {k: float(v) for k, v in env.items() if not k.startswith("__")}


def new_ctx(c, res, seed, contracts):
    names = [n for ns in var_names(c.params) for n in ns]
    ctx = Ctx(valid=[n for n in names if n not in c.notvalid and n not in c.special] if c.dom == 'valid' else (), finite=names, strict=c.strict,
              contracts=contracts, special=c.special,
              samples=[{**e} for e in rdom.make_samples(names, seed)])
    for n in c.notvalid:           # subnormal
        v = P.var(n)
        ctx.add("ne", v)
        ctx.add("lt", v * v - pc(rdom.MIN * rdom.MIN))
    if c.pre and not c.split_pre:
        args = c.split_args([P.var(n) for n in names], ZERO)
        for rel, p in c.pre(RK(ctx), *args):
            ctx.add(rel, p)
    return ctx


def rounding(ctx, c, vals, args, mx):
    names = [n for ns in var_names(c.params) for n in ns]
    margs = c.split_args([Maj(edom.majorant(ctx.ev(dag.var(n)))) for n in names], MK.zero)
    want = c.spec(MK(), *margs)
    lim = 64 if c.roundings is None else c.roundings
    for i, v in enumerate(vals):
        e = edom.ev(ctx, v)
        mx["k"] = max(mx["k"], e.k)
        w = want[i].p
        if c.roundings is None:
            ok = e.k <= lim and edom.coef_le(e.A, w * 4)
        else:
            ok = e.k <= lim and not e.scaled and (edom.coef_le(e.A, w))
        if not ok:
            fail(ctx, f"component {api.COMP[i % 8]}: {e.k} roundings over terms {e.A}, the contract allows {lim} over {w}")


def relrounding(ctx, c, vals, want, mx):
    for i, v in enumerate(vals):
        if want[i] is None or (not want[i].d):
            continue
        k = edom.rel(ctx, v)
        if k is None:
            raise Unknown(f"component {api.COMP[i % 8]}: relative rounding error not bounded")
        mx["k"] = max(mx["k"], k)
        if k > 64:
            fail(ctx, f"component {api.COMP[i % 8]}: {k} relative roundings")
