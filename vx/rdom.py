"""Interpretation of DAGs in exact real arithmetic, one decision branch at a time.

A Ctx holds what is assumed on the current branch (facts: sign conditions on exact real terms).  evaluate() gives the exact
real value of a node, raising Split where the value depends on an undecided condition; explore() enumerates the branches.
What is assumed about doubles here: inputs are finite and (where a contract says so) valid; no overflow or underflow inside.
"""
import random, time
from fractions import Fraction as Fr
import mpmath
import z3
from . import poly as P
from .poly import Poly, Atom, pc, ZERO, ONE
from . import dag
from .dag import N
from .ir import Unsupported

mpmath.mp.dps = 50
MIN = Fr(2) ** -1022


class Split(Exception):
    def __init__(self, rel, p):
        self.rel, self.p = rel, p


class Sp:
    """special values"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


NAN, PINF, NINF, BAD = Sp("NaN"), Sp("+inf"), Sp("-inf"), Sp("non-finite")


class SideFail(Exception):
    """a side condition (definedness) that cannot hold"""


class Stats:
    def __init__(self):
        self.q = 0
        self.t = 0.0
        self.unk = 0
        self.by = {}


STATS = Stats()
TIMEOUT = 8000
TQ = 1000


# ------------------------------------------------------------------ constants
_cc = {}


def const_poly(bits):
    """value a double constant stands for: a multiple of pi, a short rational, or the exact dyadic"""
    if bits in _cc:
        return _cc[bits]
    x = dag.bits2f(bits)
    if x != x:
        r = NAN
    elif x in (float("inf"), float("-inf")):
        r = PINF if x > 0 else NINF
    else:
        r = None
        f = Fr(x)
        if x:
            import math
            y = abs(x)
            m, e = math.frexp(y)
            for k in (1, 3):
                mp, ep = math.frexp(math.pi * k)
                if mp == m and abs(e - ep) < 60:
                    r = P.PI * (Fr(k) * Fr(2) ** (e - ep)) * (1 if x > 0 else -1)
        if r is None and f.denominator > 1 << 40 and 1e-12 < abs(x) < 1e12:
            g = f.limit_denominator(100000)
            if float(g) == x:
                f = g
        if r is None:
            r = pc(f)
    _cc[bits] = r
    return r


# ------------------------------------------------------------------ numeric evaluation
class NoVal(Exception):
    pass


def peval(p, env, cache=None):
    cache = {} if cache is None else cache
    r = mpmath.mpf(0)
    for m, c in p.d.items():
        t = mpmath.mpf(c.numerator) / c.denominator
        for a, e in m:
            v = aeval(a, env, cache)
            if e < 0 and v == 0:
                raise NoVal("division by zero")
            t *= v ** e
        r += t
    return r


def aeval(aid, env, cache):
    if aid in cache:
        return cache[aid]
    A = Atom.lst[aid]
    k = A.kind
    ev = lambda q: peval(q, env, cache)
    if k == "v":
        r = env[A.data]
    elif k == "pi":
        r = mpmath.pi()
    elif k == "Q":
        r = ev(A.data)
    elif k == "S":
        v = ev(A.data)
        if v < 0:
            if v > -mpmath.mpf(10) ** -35:
                v = mpmath.mpf(0)
            else:
                raise NoVal("sqrt")
        r = mpmath.sqrt(v)
    elif k == "A":
        r = abs(ev(A.data))
    elif k == "E":
        t, den = A.data
        r = mpmath.exp(ev(t) / den)
    elif k == "C":
        r = mpmath.cos(ev(A.data))
    elif k == "Z":
        r = mpmath.sin(ev(A.data))
    elif k == "L":
        v = ev(A.data)
        if v <= 0:
            raise NoVal("log")
        r = mpmath.log(v)
    elif k == "AT":
        r = mpmath.atan2(ev(A.data[0]), ev(A.data[1]))
    elif k in ("CR", "CI"):
        z = mpmath.sqrt(mpmath.mpc(ev(A.data[0]), ev(A.data[1])))
        r = z.real if k == "CR" else z.imag
    elif k == "F":
        nm = A.data[0]
        args = [ev(q) for q in A.data[1:]]
        try:
            r = feval(nm, args)
        except (ValueError, ZeroDivisionError):
            raise NoVal(nm)
        if isinstance(r, mpmath.mpc):
            raise NoVal(nm)
    else:
        raise NoVal(k)
    cache[aid] = r
    return r


def feval(nm, a):
    one = {"tan": mpmath.tan, "acos": mpmath.acos, "asin": mpmath.asin, "atan": mpmath.atan, "sinh": mpmath.sinh,
           "cosh": mpmath.cosh, "tanh": mpmath.tanh, "log1p": mpmath.log1p, "expm1": mpmath.expm1, "floor": mpmath.floor,
           "ceil": mpmath.ceil, "cbrt": mpmath.cbrt, "round": mpmath.nint, "trunc": lambda x: mpmath.sign(x) * mpmath.floor(abs(x)),
           "rint": mpmath.nint, "nearbyint": mpmath.nint, "exp2": lambda x: mpmath.mpf(2) ** x}
    if nm in one:
        return one[nm](a[0])
    if nm == "pow":
        return a[0] ** a[1]
    if nm in ("fmod", "remainder"):
        return mpmath.fmod(a[0], a[1])
    raise NoVal(nm)


# ------------------------------------------------------------------ z3
class ZTr:
    def __init__(self):
        self.vars = {}
        self.ax = []
        self.done = set()
        self.invs = {}
        self.pend = {}

    def atom(self, aid):
        if aid in self.vars:
            return self.vars[aid]
        A = Atom.lst[aid]
        k = A.kind
        if k == "Q":
            r = self.tr(A.data)
            self.vars[aid] = r
            return r
        r = z3.Real(f"{k}{aid}" if k != "v" else A.data)
        self.vars[aid] = r
        if k == "pi":
            self.ax += [r > z3.RealVal("3.14159265358979"), r < z3.RealVal("3.14159265358980")]
        elif k == "S":
            self.ax += [r >= 0, r * r == self.tr(A.data)]
        elif k == "A":
            q = self.tr(A.data)
            self.ax += [r >= 0, z3.Or(r == q, r == -q)]
        elif k == "E":
            self.ax += [r > 0]
        elif k in ("C", "Z"):
            o = P.atom("Z" if k == "C" else "C", A.data, A.data.key)
            self.ax += [r >= -1, r <= 1]
            if o.id in self.vars:
                x = self.vars[o.id]
                self.ax += [r * r + x * x == 1]
        elif k == "AT":
            y, x = self.tr(A.data[0]), self.tr(A.data[1])
            pi = self.atom(next(iter(P.PI.d))[0][0])
            self.ax += [r >= -pi, r <= pi, z3.Implies(y > 0, z3.And(r > 0, r < pi)),
                        z3.Implies(z3.And(y == 0, x > 0), r == 0), z3.Implies(z3.And(y == 0, x < 0), r == pi),
                        z3.Implies(y >= 0, r >= 0), z3.Implies(y < 0, r < 0),
                        z3.Implies(z3.And(x >= 0, y >= 0), r * 2 <= pi), z3.Implies(z3.And(x < 0, y >= 0), r * 2 > pi)]
        elif k in ("CR", "CI"):
            x, y = A.data
            u = P.atom("CR", (x, y), (x.key, y.key), nonneg=True)
            v = P.atom("CI", (x, y), (x.key, y.key))
            zu, zv = self.atom(u.id), self.atom(v.id)
            if k == "CR":
                zx, zy = self.tr(x), self.tr(y)
                self.ax += [zu >= 0, zu * zu - zv * zv == zx, 2 * zu * zv == zy]
        elif A.nonneg:
            self.ax += [r >= 0]
        return r

    def tr(self, p):
        ts = []
        for m, c in p.d.items():
            t = None
            for a, e in m:
                x = self.atom(a)
                if e < 0:
                    x = self.inv(a)
                    e = -e
                for _ in range(e):
                    t = x if t is None else t * x
            cv = z3.RealVal(f"{c.numerator}/{c.denominator}") if c.denominator != 1 else z3.RealVal(c.numerator)
            ts.append(cv if t is None else (t if c == 1 else cv * t))
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def inv(self, a):
        if a not in self.invs:
            r = z3.Real(f"inv{a}")
            self.invs[a] = r
            self.ax.append(r * self.atom(a) == 1)
        return self.invs[a]

    def fact(self, rel, p):
        z = self.tr(clear(p))
        return {"gt": z > 0, "ge": z >= 0, "eq": z == 0, "ne": z != 0, "lt": z < 0, "le": z <= 0}[rel]


def clear(p):
    """polynomial with the sign of p (denominators cleared by squares)"""
    n, D = P.expand(p)
    if not n.d:
        return n
    f = {}
    if D.d:
        (m, c), = D.d.items()
        for a, e in m:
            if e > 0:
                n = n * Atom.lst[a].data        # a common factor may vanish: keep it
                while any(Atom.lst[x].kind == "Q" for mm in n.d for x, _ in mm):
                    n, D2 = P.expand(n)
                    if D2 != ONE:
                        raise Unsupported("nested factor")
            elif e % 2:
                f[a] = f.get(a, 0) + 1
    mins = {}
    for m in n.d:
        for a, e in m:
            if e < 0:
                mins[a] = min(mins.get(a, 0), e)
    r = n
    for a, e in mins.items():
        k = -e + (-e) % 2
        r = r * Poly({((a, k),): Fr(1)})
    for a in f:
        if not Atom.lst[a].nonneg:
            r = r * Atom.lst[a].data if Atom.lst[a].kind == "Q" else r * Poly({((a, 1),): Fr(1)})
    if any(e < 0 for m in r.d for _, e in m):
        return r
    return r


NEG = {"gt": "le", "le": "gt", "ge": "lt", "lt": "ge", "eq": "ne", "ne": "eq"}
_quc = {}


def linear_unsat(facts, level=0):
    """refutation in linear arithmetic over monomials (sound: every monomial is an unconstrained or non-negative real)"""
    if not facts:
        return False
    s = z3.SolverFor("QF_LRA")
    mv = {}

    def term(p):
        ts = []
        for m, c in p.d.items():
            cv = z3.RealVal(f"{c.numerator}/{c.denominator}")
            if not m:
                ts.append(cv)
                continue
            if m not in mv:
                mv[m] = z3.Real(f"m{len(mv)}")
                if P.mono_nonneg(m):
                    s.add(mv[m] >= 0)
            ts.append(cv * mv[m])
        return z3.Sum(ts) if ts else z3.RealVal(0)
    for aid in sorted(set().union(*[atoms_of(p) for _, p in facts])):
        A = Atom.lst[aid]
        if A.kind == "A" and P.poly_plain(A.data):
            x, q = term(P.av(A)), term(A.data)
            s.add(z3.Or(x == q, x == -q))
    eqs = [clear(p) for rel, p in facts if rel == "eq"]
    if level and eqs:
        ms = sorted({m for p in eqs for m in p.d if m})[:40]
        for p in eqs[:6]:
            for m in ms:
                s.add(term(p * Poly({m: Fr(1)})) == 0)
    for rel, p in facts:
        t = term(clear(p))
        s.add({"gt": t > 0, "ge": t >= 0, "eq": t == 0, "ne": t != 0, "lt": t < 0, "le": t <= 0}[rel])
    s.set("timeout", 2000)
    return s.check() == z3.unsat


def linearise(fs):
    """abstraction: every nonlinear product is a variable of its own, with the sign of the product"""
    mon, cache, ax, keep = {}, {}, [], []

    def prod(vs):
        key = tuple(sorted(v.get_id() for v in vs))
        if key in mon:
            return mon[key]
        m = mon[key] = z3.Real(f"_m{len(mon)}")
        cnt = {}
        for v in vs:
            cnt.setdefault(v.get_id(), [v, 0])[1] += 1
        odd = [v for v, k in cnt.values() if k % 2]
        zero = z3.Or([v == 0 for v, k in cnt.values()])
        ax.append((m == 0) == zero)
        if not odd:
            ax.append(m >= 0)
        elif len(odd) <= 2:
            pos = odd[0] > 0 if len(odd) == 1 else (odd[0] > 0) == (odd[1] > 0)
            ax.append(z3.Implies(z3.Not(zero), (m > 0) == pos))
        return m

    def flat(e, out):
        if z3.is_app_of(e, z3.Z3_OP_MUL):
            for c in e.children():
                flat(c, out)
        elif z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)) and str(e.arg(1)).isdigit():
            for _ in range(int(str(e.arg(1)))):
                flat(e.arg(0), out)
        else:
            out.append(e)

    def go(e):
        r = cache.get(e.get_id())
        if r is not None:
            return r
        if z3.is_app_of(e, z3.Z3_OP_MUL) or z3.is_app_of(e, z3.Z3_OP_POWER):
            fl = []
            flat(e, fl)
            cs = [x for x in fl if z3.is_rational_value(x)]
            vs = [go(x) if x is not e else x for x in fl if not z3.is_rational_value(x)]
            r = prod(vs) if len(vs) > 1 else vs[0] if vs else z3.RealVal(1)
            for x in cs:
                r = x * r
        elif e.num_args():
            r = e.decl()(*[go(c) for c in e.children()])
        else:
            r = e
        cache[e.get_id()] = r
        keep.append((e, r))
        return r
    return [go(z3.simplify(f, som=True)) for f in fs] + ax


def abstract_unsat(fs):
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 1500)
    s.add(*linearise(fs))
    return s.check() == z3.unsat


def zcheck(facts, valid, timeout=None, want_model=False):
    """satisfiability of facts over the reals: 'sat' (with model), 'unsat' or 'unknown'"""
    t0 = time.time()
    if linear_unsat(facts) or (any(r == "eq" for r, _ in facts) and linear_unsat(facts, 1)):
        STATS.q += 1
        STATS.t += time.time() - t0
        return "unsat", None
    T = ZTr()
    fs = [T.fact(r, p) for r, p in facts]
    used = set()
    for v in valid:
        a = P.atom("v", v, v, name=v)
        if a.id in T.vars:
            x = T.vars[a.id]
            m = z3.RealVal(str(MIN))
            fs.append(z3.Or(x == 0, x >= m, x <= -m))
    key = tuple(sorted(f.sexpr() for f in fs + T.ax))
    if key in _quc and not want_model:
        return _quc[key], None
    if abstract_unsat(fs + T.ax):
        STATS.q += 1
        STATS.t += time.time() - t0
        _quc[key] = "unsat"
        return "unsat", None
    s = z3.SolverFor("QF_NRA")
    s.set("timeout", timeout or TIMEOUT)
    s.add(*fs)
    s.add(*T.ax)
    r = str(s.check())
    STATS.q += 1
    dt = time.time() - t0
    STATS.t += dt
    model = None
    if r == "sat":
        md = s.model()
        model = {}
        for aid, zv in T.vars.items():
            A = Atom.lst[aid]
            if A.kind == "v":
                v = md.eval(zv, model_completion=True)
                try:
                    if z3.is_algebraic_value(v):
                        v = v.approx(40)
                    model[A.data] = Fr(v.numerator_as_long(), v.denominator_as_long())
                except Exception:
                    pass
        # nlsat models are over real-closed fields only where every atom is algebraic; others are free there
        if any(Atom.lst[a].kind in ("E", "C", "Z", "L", "AT", "F", "pi") for a in T.vars):
            model["__weak__"] = True
    elif r == "unknown":
        STATS.unk += 1
    _quc[key] = r
    return r, model


# ------------------------------------------------------------------ contexts
class Ctx:
    def __init__(self, valid=(), finite=(), strict=True, samples=None, contracts=None, special=None):
        self.facts = []
        self.sub = {}
        self.valid = set(valid)      # variables known to be zero or normal
        self.finite = set(finite)
        self.strict = strict
        self.samples = samples or []
        self.cache = {}
        self.contracts = contracts or {}
        self.truths = {}
        self.special = special or {}     # variables standing for NaN / infinities
        self.notes = []
        self.loose = None                # {node: outcome}: decisions on rounded values are taken either way, nothing is learnt from them

    def child(self):
        c = Ctx(self.valid, self.finite, self.strict, list(self.samples), self.contracts, self.special)
        c.facts = list(self.facts)
        c.sub = dict(self.sub)
        c.loose = None if self.loose is None else dict(self.loose)
        return c

    def add(self, rel, p):
        """assume p rel 0"""
        if rel in ("le", "lt"):
            rel, p = {"le": "ge", "lt": "gt"}[rel], -p
        self.facts.append((rel, p))
        self.cache = {}
        self.truths = {}
        if rel == "eq":
            n = -1
            while n != len(self.sub):
                n = len(self.sub)
                for r, q in list(self.facts):
                    if r == "eq":
                        self.solve(psubst(q, self.sub))
        out = []
        for env in self.samples:
            if holds(rel, p, env):
                out.append(env)
        self.samples = out

    def solve(self, p):
        n, _ = P.expand(P.cancel(p))
        if not n.d:
            return
        if len(n.d) == 1:
            (m, c), = n.d.items()
            ats = [a for a, e in m if e > 0]
            if len(ats) == 1:
                A = Atom.lst[ats[0]]
                if A.kind == "v":
                    self.setvar(A.data, ZERO)
                elif A.kind in ("S", "Q", "A"):
                    self.solve(A.data)
            return
        sgn = set(c > 0 for c in n.d.values())
        if len(sgn) == 1 and all(P.mono_nonneg(m) for m in n.d):
            for m, c in n.d.items():
                self.solve(Poly({m: Fr(1)}))
            return
        # linear in a variable with constant coefficient
        for m, c in n.d.items():
            if len(m) == 1 and m[0][1] == 1 and Atom.lst[m[0][0]].kind == "v":
                a = m[0][0]
                rest = Poly({k: v for k, v in n.d.items() if k != m})
                if not mentions(rest, a):
                    self.setvar(Atom.lst[a].data, rest * (-1 / c))
                    return

    def setvar(self, name, val):
        val = psubst(val, self.sub)
        if name in self.sub:
            return
        a = P.atom("v", name, name, name=name)
        if mentions(val, a.id):
            return
        self.sub[name] = val
        for k in list(self.sub):
            self.sub[k] = psubst(self.sub[k], {name: val})
        self.facts = [(r, psubst(p, {name: val})) for r, p in self.facts]

    # -------------------------------------------------------- truth
    def truth(self, rel, p):
        """is p rel 0?  True/False or raise Split"""
        p = P.cancel(psubst(p, self.sub)) if self.sub else P.cancel(p)
        if rel in ("lt", "le"):
            return self.truth({"lt": "gt", "le": "ge"}[rel], -p)
        if rel == "ne":
            return not self.truth("eq", p)
        if rel == "ge":
            return not self.truth("gt", -p)
        r = sign_known(p)
        if r is not None:
            # r: set of possible signs
            if rel == "gt":
                if r <= {1}:
                    return True
                if 1 not in r:
                    return False
            else:
                if r == {0}:
                    return True
                if 0 not in r:
                    return False
        if rel == "eq" and P.is_zero(p):
            return True
        for sg in (1, -1):
            xy = P.SUMSQ.get(p if sg > 0 else -p)
            if xy:
                z = self.truth("eq", xy[0]) and self.truth("eq", xy[1])
                return z if rel == "eq" else (not z and sg > 0)
        if len(p.d) > 1 and P.poly_plain(p) and not (len(p.d) == 2 and () in p.d):
            for sg in (1, -1):
                root = P.psqrt(p if sg > 0 else -p)
                if root is not None:
                    z = self.truth("eq", root)
                    return z if rel == "eq" else (not z and sg > 0)
        q = sqrt_vs_const(p)
        if q is not None:
            c1, c0, rad = q
            k = -c0 / c1                      # p = c1 * (sqrt(rad) - k)
            if rel == "eq":
                return False if k < 0 else self.truth("eq", rad - pc(k * k))
            if c1 > 0:
                return True if k < 0 else self.truth("gt", rad - pc(k * k))
            return False if k <= 0 else self.truth("gt", pc(k * k) - rad)
        p0 = p
        p = self.normal(p)
        if p is not p0:
            return self.truth(rel, p)
        q = self.unabs(p)
        if q is not None:
            return self.truth(rel, q)
        q = at_vs_const(p)
        if q is not None:
            c1, k, y, x = q                   # p = c1 * (atan2(y, x) - k), y >= 0, 0 < k
            if self.truth("gt", y - pc(k) * P.sqrt(x * x + y * y)):       # angle >= its sine
                return rel == "gt" and c1 > 0
        q = two_parts(p, self.sign_here)
        if q is not None:
            q, D = P.expand(q)
            assert D == ONE
            for a in sorted({a for x in (p, q) for m in x.d for a, _ in m if Atom.lst[a].kind == "S"}):
                A = Atom.lst[a]
                if not P.poly_plain(A.data):
                    continue
                r = P.pdivides(q, A.data)
                if r is not None and not self.truth("eq", A.data):
                    q = r
            return self.truth(rel, q)
        key = (rel, p)
        if key in self.truths:
            return self.truths[key]
        pos = neg = 0
        for env in self.samples:
            h = holds(rel, p, env)
            if h is True:
                pos += 1
            elif h is False:
                neg += 1
        res = None
        if not (pos and neg):
            if not pos:
                r, m = zcheck(self.facts + [(rel, p)], self.valid, TQ)
                if r == "unsat":
                    res = False
            if res is None and not neg:
                r, m = zcheck(self.facts + [(NEG[rel], p)], self.valid, TQ)
                if r == "unsat":
                    res = True
        if res is None:
            raise Split(rel, p)
        self.truths[key] = res
        return res

    def sign_here(self, p):
        """set of possible signs, from the structure and from variables assumed non-negative on this branch"""
        r = sign_known(p)
        if r is not None or not p.d:
            return r
        c, mono, prim = P.content(p)
        if not mono:
            return None
        here = {q for rl, q in self.facts if rl in ("gt", "ge") and len(q.d) == 1}
        rest = []
        for a, e in mono:
            if e % 2 == 0 or Poly({((a, 1),): Fr(1)}) in here:
                continue
            rest.append((a, e))
        if any(e < 0 for _, e in mono) or rest == list(mono):
            return None
        q = prim * Poly({tuple(rest): Fr(1) if c > 0 else Fr(-1)})
        r = sign_known(q)
        return None if r is None else r | {0}

    def unabs(self, p):
        """absolute values of terms whose sign is known here replaced"""
        if len(p.d) > 6:
            return None
        for a in sorted({a for m in p.d for a, _ in m if Atom.lst[a].kind == "A"}):
            A = Atom.lst[a]
            if len(A.data.d) < 2:
                continue
            try:
                s = A.data if self.truth("ge", A.data) else -A.data
            except Split:
                continue
            r = ZERO
            for m, c in p.d.items():
                e = dict(m).get(a, 0)
                r = r + Poly({tuple(x for x in m if x[0] != a): c}) * s ** e
            return r
        return None

    def normal(self, p):
        """a polynomial with the sign of p: positive factors and denominators dropped"""
        if not p.d:
            return p
        n, D = P.expand(p)
        if D.d and D != ONE:
            for a, e in next(iter(D.d)):
                A = Atom.lst[a]
                if not A.nonneg or e > 0:
                    return p
            p = n
        if not p.d:
            return p
        c, mono, prim = P.content(p)
        drop = []
        for a, e in mono:
            A = Atom.lst[a]
            if e < 0 or not (A.nonneg or e % 2 == 0):
                continue
            if A.kind in ("S", "Q", "A"):
                if A.pos or ("eq", A.data) in self.truths and not self.truths[("eq", A.data)]:
                    drop.append((a, e))
                    continue
                try:
                    z = self.truth("eq", A.data) if P.poly_plain(A.data) else True
                except Split:
                    z = True
                if not z:
                    drop.append((a, e))
            elif A.pos:
                drop.append((a, e))
        if drop:
            p = Poly({tuple(x for x in m if x[0] not in {a for a, _ in drop}) + tuple((a, dict(m)[a] - e) for a, e in drop if dict(m)[a] != e): v
                      for m, v in p.d.items()})
            p = Poly({tuple(sorted(m)): v for m, v in p.d.items()})
        return p

    def refute(self, rel, p):
        """try to show facts => p rel 0.  returns ('proved'|'sat'|'unknown', model)"""
        p = P.cancel(psubst(p, self.sub)) if self.sub else P.cancel(p)
        if rel == "eq" and P.is_zero(p):
            return "proved", None
        s = sign_known(p)
        if s is not None:
            ok = {"gt": s <= {1}, "ge": s <= {0, 1}, "eq": s == {0}, "ne": 0 not in s, "lt": s <= {-1}, "le": s <= {0, -1}}[rel]
            if ok:
                return "proved", None
        for env in self.samples:
            if holds(rel, p, env) is False and certain(rel, p, env):
                return "sat", env
        try:
            q = self.normal(p)
            if q is not p and q.isconst() and {"gt": q.cval() > 0, "ge": q.cval() >= 0, "ne": q.cval() != 0}.get(rel):
                return "proved", None
        except Split:
            pass
        r, m = zcheck(self.facts + [(NEG[rel], p)], self.valid, want_model=True)
        if r == "unsat":
            return "proved", None
        if r == "sat" and m and not m.get("__weak__"):
            return "sat", m
        return "unknown", m

    # -------------------------------------------------------- evaluation
    def ev(self, n):
        r = self.cache.get(n.id)
        if r is None:
            r = self._ev(n)
            self.cache[n.id] = r
        return r

    def _ev(self, n):
        op = n.op
        if op == "var":
            if n.a[0] in self.special:
                return self.special[n.a[0]]
            v = P.var(n.a[0])
            return psubst(v, self.sub) if self.sub else v
        if op == "const":
            return const_poly(n.a[0])
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            a, b = self.ev(n.a[0]), self.ev(n.a[1])
            return self.arith(op, a, b)
        if op == "fneg":
            a = self.ev(n.a[0])
            if isinstance(a, Sp):
                return {PINF: NINF, NINF: PINF}.get(a, a)
            return -a
        if op == "fptrunc":
            return self.ev(n.a[0])
        if op == "ite":
            return self.ev(n.a[1] if self.cond(n.a[0]) else n.a[2])
        if op == "fn":
            return self.fn(n.a[0], [self.ev(x) for x in n.a[1:]])
        if op == "spec":
            cid, idx = n.a[0], n.a[1]
            key = ("spec", cid, tuple(x.id for x in n.a[2:]))
            r = self.cache.get(key)
            if r is None:
                r = self.contracts[cid].call(self, [self.ev(x) for x in n.a[2:]])
                self.cache[key] = r
            v = r[idx]
            if isinstance(v, bool):
                raise Unsupported("bool spec")
            return v
        if op == "i2f":
            raise Unsupported("integer variable to double")
        raise Unsupported("real value of " + op)

    def arith(self, op, a, b):
        if isinstance(a, Sp) or isinstance(b, Sp):
            if a is NAN or b is NAN:
                return NAN
            if op in ("fadd", "fsub"):
                if op == "fsub" and isinstance(b, Sp):
                    b = {PINF: NINF, NINF: PINF}.get(b, b)
                if not isinstance(a, Sp):
                    return b
                if not isinstance(b, Sp):
                    return a
                if a is b and a in (PINF, NINF):
                    return a
                return BAD
            if op == "fmul":
                return BAD
            if op == "fdiv":
                if not isinstance(b, Sp):
                    return BAD
                if not isinstance(a, Sp) and b in (PINF, NINF):
                    return ZERO
                raise Unsupported("division by a non-finite value")
        if op == "fadd":
            return a + b
        if op == "fsub":
            return a - b
        if op == "fmul":
            return a * b
        if self.truth("eq", b):
            return BAD if not self.truth("eq", a) else NAN
        return a * P.inv(psubst(b, self.sub))

    def known_zero(self, p):
        """an equality among the facts says p = 0 (up to a constant factor)"""
        if not p.d:
            return True
        n = P.expand(P.cancel(p))[0]
        if not n.d:
            return True
        m = max(n.d)
        for r, q in self.facts:
            if r == "eq" and q.d:
                q = P.expand(P.cancel(psubst(q, self.sub)))[0]
                if len(q.d) == len(n.d) and m in q.d and n.scale(q.d[m] / n.d[m]) == q:
                    return True
        return False

    def fn(self, nm, a):
        if any(r == "eq" and q.d for r, q in self.facts):
            a = [ZERO if isinstance(x, Poly) and self.known_zero(x) else x for x in a]
        return self.fn1(nm, a)

    def fn1(self, nm, a):
        if any(x is NAN for x in a):
            if nm == "hypot" or nm.startswith("c"):
                return BAD if not all(x is NAN for x in a) else NAN
            return NAN
        if any(isinstance(x, Sp) for x in a):
            if nm == "fabs":
                return PINF if a[0] in (PINF, NINF) else BAD
            if nm in ("sqrt", "cos", "sin", "log"):
                if nm in ("cos", "sin") and a[0] in (PINF, NINF):
                    return NAN
                return BAD
            if nm == "hypot":
                return BAD
            raise Unsupported(f"{nm} of a non-finite value")
        if nm == "sqrt":
            if self.truth("lt", a[0]):
                return NAN
            return P.sqrt(a[0])
        if nm == "fabs":
            s = sign_known(a[0])
            if s is not None and s <= {0, 1}:
                return a[0]
            return P.pabs(a[0])
        if nm == "hypot":
            for x, y in (a, a[::-1]):
                if not x.d:
                    return P.pabs(y)
            return P.hypot(a[0], a[1])
        if nm == "cos":
            return P.cos(a[0])
        if nm == "sin":
            return P.sin(a[0])
        if nm == "tan":
            return P.sin(a[0]) / P.cos(a[0])
        if nm == "exp":
            return P.exp(a[0])
        if nm == "expm1":
            return P.exp(a[0]) - ONE
        if nm == "log1p":
            return self.fn("log", [a[0] + ONE])
        if nm == "tanh":
            e, f = P.exp(a[0]), P.exp(-a[0])
            return (e - f) / (e + f)
        if nm == "cosh":
            e = P.exp(a[0])
            return (e + P.exp(-a[0])) * Fr(1, 2)
        if nm == "sinh":
            return (P.exp(a[0]) - P.exp(-a[0])) * Fr(1, 2)
        if nm == "log":
            if not self.truth("gt", a[0]):
                return BAD
            return P.log(a[0])
        if nm == "atan2":
            y, x = a
            if self.truth("eq", y):
                if self.truth("gt", x):
                    return ZERO
                if self.truth("eq", x):
                    return ZERO
                return P.PI
            if self.truth("eq", x):
                return P.PI * Fr(1 if self.truth("gt", y) else -1, 2)
            return P.atan2(y, x)
        if nm == "fma":
            return a[0] * a[1] + a[2]
        if nm == "cbrt":
            return P.other("cbrt", a)
        if nm in ("csqrt_re", "csqrt_im"):
            u, v = self.csqrt(a[0], a[1])
            return u if nm == "csqrt_re" else v
        if nm in ("cexp_re", "cexp_im"):
            return P.exp(a[0]) * (P.cos(a[1]) if nm == "cexp_re" else P.sin(a[1]))
        if nm in ("ccosh_re", "ccosh_im", "csinh_re", "csinh_im"):
            e, f = P.exp(a[0]), P.exp(-a[0])
            ch, sh = (e + f) * Fr(1, 2), (e - f) * Fr(1, 2)
            return {"ccosh_re": lambda: ch * P.cos(a[1]), "ccosh_im": lambda: sh * P.sin(a[1]),
                    "csinh_re": lambda: sh * P.cos(a[1]), "csinh_im": lambda: ch * P.sin(a[1])}[nm]()
        if nm in ("ccos_re", "ccos_im", "csin_re", "csin_im"):
            e, f = P.exp(a[1]), P.exp(-a[1])
            ch, sh = (e + f) * Fr(1, 2), (e - f) * Fr(1, 2)
            return {"ccos_re": lambda: ch * P.cos(a[0]), "ccos_im": lambda: -sh * P.sin(a[0]),
                    "csin_re": lambda: ch * P.sin(a[0]), "csin_im": lambda: sh * P.cos(a[0])}[nm]()
        if nm in ("cdiv_re", "cdiv_im"):
            x, y, c, d = a
            den = c * c + d * d
            if self.truth("eq", den):
                return BAD
            i = P.inv(den)
            return (x * c + y * d) * i if nm == "cdiv_re" else (y * c - x * d) * i
        if nm in ("clog_re", "clog_im"):
            if nm == "clog_re":
                return self.fn("log", [P.sqrt(a[0] * a[0] + a[1] * a[1])])
            return self.fn("atan2", [a[1], a[0]])
        if nm == "acos":
            # acos(x) = atan2(sqrt(1-x^2), x)
            return self.fn("atan2", [self.fn("sqrt", [ONE - a[0] * a[0]]), a[0]])
        if nm == "asin":
            return self.fn("atan2", [a[0], self.fn("sqrt", [ONE - a[0] * a[0]])])
        if nm == "atan":
            return self.fn("atan2", [a[0], ONE])
        return P.other(nm, a)

    def csqrt(self, x, y):
        if self.truth("eq", y):
            if self.truth("ge", x):
                return P.sqrt(x), ZERO
            return ZERO, P.sqrt(-x)
        if not P.expand(x)[0].d:
            if self.truth("gt", y):
                r = P.sqrt(y * Fr(1, 2))
                return r, r
            r = P.sqrt(-y * Fr(1, 2))
            return r, -r
        return P.csqrt(x, y)

    def cond(self, n):
        key = ("c", n.id)
        r = self.cache.get(key)
        if r is None:
            if self.loose is not None and n.op in ("fcmp", "fclass", "fsign") and not all(held(x) for x in n.a if isinstance(x, dag.N)):
                if n.id not in self.loose:
                    raise Either(n.id)
                return self.loose[n.id]
            r = self._cond(n)
            self.cache[key] = r
        return r

    def _cond(self, n):
        op = n.op
        if op == "true":
            return True
        if op == "false":
            return False
        if op == "not":
            return not self.cond(n.a[0])
        if op in ("and", "or"):
            m = merged_class(n)
            if m:
                return self.fclass(*m)
            # decide on whichever side can be decided first
            stop = op == "or"
            sp = None
            for x in n.a:
                try:
                    if self.cond(x) == stop:
                        return stop
                except Split as e:
                    sp = sp or e
            if sp:
                raise sp
            return not stop
        if op == "xor":
            return self.cond(n.a[0]) != self.cond(n.a[1])
        if op == "ite":
            return self.cond(n.a[1] if self.cond(n.a[0]) else n.a[2])
        if op == "fcmp":
            pred = n.a[0]
            a, b = self.ev(n.a[1]), self.ev(n.a[2])
            return self.cmp(pred, a, b)
        if op == "ford":
            a = self.ev(n.a[0])
            if a is NAN:
                return False
            if a is BAD:
                raise Unsupported("ordered test of a non-finite value")
            return True
        if op == "fclass":
            return self.fclass(n.a[0], n.a[1])
        if op == "fsign":
            a = self.ev(n.a[0])
            if isinstance(a, Sp):
                raise Unsupported("sign bit of a non-finite value")
            return self.truth("lt", a)
        if op == "spec":
            r = self.contracts[n.a[0]].call(self, [self.ev(x) for x in n.a[2:]])
            return r[n.a[1]]
        raise Unsupported("condition " + op)

    def cmp(self, pred, a, b):
        if a is NAN or b is NAN:
            return False
        if isinstance(a, Sp) or isinstance(b, Sp):
            if a is BAD or b is BAD:
                if pred == "oeq" and not (isinstance(a, Sp) and isinstance(b, Sp)):
                    return False
                raise Unsupported("comparison of a non-finite value")
            va = 1 if a is PINF else -1 if a is NINF else 0
            vb = 1 if b is PINF else -1 if b is NINF else 0
            return {"oeq": va == vb, "ogt": va > vb, "oge": va >= vb, "one": va != vb}[pred]
        d = a - b
        if pred == "oeq":
            return self.truth("eq", d)
        if pred == "one":
            return not self.truth("eq", d)
        if pred == "ogt":
            return self.truth("gt", d)
        return self.truth("ge", d)

    def fclass(self, mask, x):
        a = self.ev(x)
        if isinstance(a, Sp):
            sets = {NAN: (1, 2), PINF: (512,), NINF: (4,), BAD: (1, 2, 4, 512)}[a]
            got = {bool(mask & s) for s in sets}
            if a is NAN:
                got = {bool(mask & 3)} if (mask & 3) in (0, 3) else got
            if len(got) > 1:
                raise Unsupported("class of a non-finite value")
            return got.pop()
        lax = (x.op == "var" and x.a[0] in self.valid) or (not self.strict and x.op != "var")
        if lax and mask & 0x168 in (0, 0x168):
            return bool(mask & 0x168)
        zero = self.truth("eq", a)
        if zero:
            b = {bool(mask & 32), bool(mask & 64)}
            if len(b) > 1:
                raise Unsupported("sign of zero")
            return b.pop()
        posn, negn, poss, negs = bool(mask & 256), bool(mask & 8), bool(mask & 128), bool(mask & 16)
        if lax:
            normal = True
        elif posn == poss and negn == negs:
            normal = True
        else:
            normal = self.truth("ge", a * a - pc(MIN * MIN))
        if posn == negn and poss == negs:
            return posn if normal else poss
        if self.truth("gt", a):
            return posn if normal else poss
        return negn if normal else negs


def sqrt_vs_const(p):
    """p = c1 * sqrt(rad) + c0 with constants c1 != 0, c0"""
    c0 = p.d.get((), Fr(0))
    rest = [m for m in p.d if m]
    if len(rest) != 1 or not any(Atom.lst[a].kind == "S" for a, _ in rest[0]) or not P.mono_nonneg(rest[0]):
        return None
    if any(Atom.lst[a].kind not in ("S", "Q", "v", "pi", "A") for a, _ in rest[0]):
        return None
    m = Poly({rest[0]: Fr(1)})
    return p.d[rest[0]], c0, m * m


def merged_class(n):
    """x == 0 or class(x) as one class test"""
    if n.op != "or" or len(n.a) != 2:
        return None
    for x, y in (n.a, n.a[::-1]):
        if x.op == "fclass" and y.op == "fcmp" and y.a[0] == "oeq":
            for u, v in ((y.a[1], y.a[2]), (y.a[2], y.a[1])):
                if v.op == "const" and dag.bits2f(v.a[0]) == 0 and u is x.a[1]:
                    return x.a[0] | 0x60, u
    return None


def two_parts(p, sign):
    """p = U T1 - V T2 with U, V of known equal sign, T1, T2 products of roots: a polynomial with the sign of p"""
    G = {}
    for m, c in p.d.items():
        t = tuple((a, e) for a, e in m if Atom.lst[a].kind in ("S", "A"))
        if any(e != 1 for _, e in t) or any(e < 0 for _, e in m):
            return None
        G.setdefault(t, {})[tuple(x for x in m if x not in t)] = c
        if len(G) > 2:
            return None
    if len(G) != 2:
        return None
    (t, U), (w, V) = G.items()
    U, V = Poly(U), Poly(V)
    su, sv = sign(U), sign(V)
    if su is None or sv is None:
        return None
    t, w = Poly({t: Fr(1)}), Poly({w: Fr(1)})
    d = U * U * (t * t) - V * V * (w * w)
    if su <= {0, 1} and sv <= {0, -1}:
        return d
    if su <= {0, -1} and sv <= {0, 1}:
        return -d
    return None


def at_vs_const(p):
    c0 = p.d.get((), Fr(0))
    rest = [m for m in p.d if m]
    if len(rest) != 1 or len(rest[0]) != 1 or rest[0][0][1] != 1:
        return None
    A = Atom.lst[rest[0][0][0]]
    c1 = p.d[rest[0]]
    k = -c0 / c1
    if A.kind != "AT" or not P.known_nonneg(A.data[0]) or not 0 < k <= 1:
        return None
    return c1, k, A.data[0], A.data[1]


def mentions(p, aid, seen=None):
    for m in p.d:
        for a, _ in m:
            if a == aid:
                return True
            A = Atom.lst[a]
            if A.kind in ("v", "pi"):
                continue
            for q in (A.data if isinstance(A.data, tuple) else (A.data,)):
                if isinstance(q, Poly) and mentions(q, aid):
                    return True
    return False


def atoms_of(p, out=None):
    out = set() if out is None else out
    for m in p.d:
        for a, _ in m:
            if a in out:
                continue
            out.add(a)
            A = Atom.lst[a]
            for q in (A.data if isinstance(A.data, tuple) else (A.data,)):
                if isinstance(q, Poly):
                    atoms_of(q, out)
    return out


_sc = {}


def psubst(p, sub):
    """replace variables by polys (rebuilding composite atoms)"""
    if not sub:
        return p
    names = {P.atom("v", k, k, name=k).id: v for k, v in sub.items()}
    key = (p, tuple(sorted((k, v) for k, v in ((a, v.key) for a, v in names.items()))))
    if key in _sc:
        return _sc[key]
    if not (atoms_of(p) & set(names)):
        _sc[key] = p
        return p
    r = ZERO
    for m, c in p.d.items():
        t = pc(c)
        for a, e in m:
            x = asubst(a, names, sub)
            if e > 0:
                t = t * x ** e
            else:
                t = t * P.inv(x) ** (-e)
        r = r + t
    r = P.cancel(r)
    _sc[key] = r
    return r


def asubst(a, names, sub):
    if a in names:
        return names[a]
    A = Atom.lst[a]
    s = lambda q: psubst(q, sub)
    k = A.kind
    if k in ("v", "pi"):
        return P.av(A)
    if k == "Q":
        return s(A.data)
    if k == "S":
        return P.sqrt(s(A.data))
    if k == "A":
        return P.pabs(s(A.data))
    if k == "E":
        return P.exp(s(A.data[0]) * Fr(1, A.data[1]))
    if k == "C":
        return P.cos(s(A.data))
    if k == "Z":
        return P.sin(s(A.data))
    if k == "L":
        return P.log(s(A.data))
    if k == "AT":
        y, x = s(A.data[0]), s(A.data[1])
        if not y.d:
            sg = sign_known(x)
            if sg is not None and sg <= {0, 1}:
                return ZERO
            if sg is not None and sg <= {-1}:
                return P.PI
            raise Unsupported("atan2(0, x) with x of unknown sign")
        return P.atan2(y, x)
    if k in ("CR", "CI"):
        u, v = P.csqrt(s(A.data[0]), s(A.data[1]))
        return u if k == "CR" else v
    return P.other(A.data[0], [s(q) for q in A.data[1:]])


def sign_known(p):
    """set of signs p can have, from structure alone, or None"""
    if not p.d:
        return {0}
    if p.isconst():
        return {1} if p.cval() > 0 else {-1}
    if P.known_pos_struct(p):
        return {1}
    if P.known_nonneg(p):
        return {0, 1}
    n = -p
    if P.known_pos_struct(n):
        return {-1}
    if P.known_nonneg(n):
        return {0, -1}
    return None


def holds(rel, p, env):
    try:
        v = peval(p, env)
    except (NoVal, KeyError, OverflowError, ValueError, ZeroDivisionError):
        return None
    tiny = mpmath.mpf(10) ** -30
    if rel in ("eq", "ne"):
        z = v == 0
        if not z and abs(v) < tiny * (1 + scale(p, env)):
            # rounding noise of the evaluation shrinks with the working precision
            with mpmath.workdps(150):
                w = peval(p, env)
            z = abs(w) < abs(v) * mpmath.mpf(10) ** -40
        return z if rel == "eq" else not z
    return {"gt": v > 0, "ge": v >= 0, "lt": v < 0, "le": v <= 0}[rel]


def certain(rel, p, env):
    """the failure of p rel 0 at env is beyond numeric noise"""
    try:
        v = peval(p, env)
        return abs(v) > mpmath.mpf(10) ** -25 * (1 + scale(p, env)) or rel in ("gt", "ne")
    except Exception:
        return False


def scale(p, env):
    s = mpmath.mpf(0)
    cache = {}
    for m, c in p.d.items():
        t = abs(mpmath.mpf(c.numerator) / c.denominator)
        for a, e in m:
            t *= abs(aeval(a, env, cache)) ** e
        s = max(s, t)
    return s


def make_samples(names, seed, n=14):
    rnd = random.Random(seed)
    out = [{v: mpmath.mpf(0) for v in names}]
    for i in range(3):
        out.append({v: mpmath.mpf(0) for v in names})
        for v in rnd.sample(names, min(i + 1, len(names))):
            out[-1][v] = mpmath.mpf(10) ** rnd.randint(-300, -2) * rnd.choice([1, -1])
    for k in range(n):
        env = {}
        for v in names:
            t = rnd.random()
            if k % 4 == 3 and t < .35:
                x = 0.0
            elif k % 4 == 2:
                x = float(rnd.randint(-2, 2))
            elif k % 4 == 1:
                x = rnd.choice([-1, 1]) * 10 ** rnd.uniform(-3, 3)
            else:
                x = rnd.uniform(-2, 2)
            env[v] = mpmath.mpf(x)
        out.append(env)
    return out


MAXLEAF = 400


class Either(Exception):
    """a decision on a rounded value"""


def held(n):
    """the node's value is an operand, a constant or a selection among them: no rounding"""
    while n.op == "fneg" or (n.op == "fn" and n.a[0] in ("fabs", "copysign")):
        n = n.a[0] if n.op == "fneg" else n.a[1]
    if n.op == "ite":
        return held(n.a[1]) and held(n.a[2])
    return n.op in ("var", "const")


def explore(ctx, leaf, depth=0, count=None):
    """run leaf(ctx) on every feasible branch"""
    count = count if count is not None else [0]
    try:
        leaf(ctx)
        count[0] += 1
        return count[0]
    except Either as e:
        if depth > 60 or count[0] > MAXLEAF:
            raise Unsupported("too many branches")
        for v in (True, False):
            c = ctx.child()
            c.loose[e.args[0]] = v
            explore(c, leaf, depth + 1, count)
        return count[0]
    except Split as e:
        if depth > 60 or count[0] > MAXLEAF:
            raise Unsupported("too many branches")
        rel, p = e.rel, e.p
    for r in (rel, NEG[rel]):
        c = ctx.child()
        c.add(r, p)
        if not c.samples:
            q, _ = zcheck(c.facts, c.valid, TQ)
            if q == "unsat":
                continue
        explore(c, leaf, depth + 1, count)
    return count[0]
