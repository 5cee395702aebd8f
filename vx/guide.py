"""Branch-directed inputs for the search that tries to confirm a failed obligation: the decisions the code takes are known
from its symbolic execution, so inputs are moved along lines until a decision changes, and both sides are tried."""
import cmath, math, time
from . import api, dag
from .core import var_names
from .dag import N

INF, NAN = math.inf, math.nan


def _div(a, b):
    if b == 0:
        if a == 0 or a != a or b != b:
            return NAN
        return math.copysign(INF, a) * math.copysign(1.0, b)
    try:
        return a / b
    except OverflowError:
        return INF


def _cx(f):
    def g(x, y):
        try:
            return f(complex(x, y))
        except OverflowError:
            return complex(INF, INF)
        except (ValueError, ZeroDivisionError):
            return complex(NAN, NAN)
    return g


CF = {"csqrt": _cx(cmath.sqrt), "cexp": _cx(cmath.exp), "clog": _cx(cmath.log), "ccosh": _cx(cmath.cosh), "csinh": _cx(cmath.sinh),
      "ccos": _cx(cmath.cos), "csin": _cx(cmath.sin), "ctanh": _cx(cmath.tanh), "ctan": _cx(cmath.tan)}
RF = {"rint": lambda x: float(round(x)), "nearbyint": lambda x: float(round(x)), "round": lambda x: math.floor(abs(x) + .5) * math.copysign(1, x),
      "floor": lambda x: float(math.floor(x)), "ceil": lambda x: float(math.ceil(x)), "trunc": lambda x: float(math.trunc(x)),
      "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "exp2": lambda x: 2.0 ** x, "fdim": lambda x, y: max(x - y, 0.0)}


def fnv(nm, xs):
    try:
        if nm.endswith("_re") or nm.endswith("_im"):
            b = nm[:-3]
            if b in CF:
                z = CF[b](*xs)
            elif b == "cdiv":
                z = complex(xs[0], xs[1]) / complex(xs[2], xs[3])
            else:
                return NAN
            return z.real if nm.endswith("_re") else z.imag
        if nm == "fma":
            return xs[0] * xs[1] + xs[2]
        if nm == "sqrt":
            return math.sqrt(xs[0]) if xs[0] >= 0 else NAN
        f = RF.get(nm) or getattr(math, nm)
        return float(f(*xs))
    except OverflowError:
        return INF
    except (ValueError, ZeroDivisionError, AttributeError, TypeError):
        return NAN


def evaluate(order, env):
    """values of all nodes of order (children first)"""
    v = {}
    for n in order:
        op, a = n.op, n.a
        if op == "const":
            r = dag.bits2f(a[0])
        elif op == "var" or op == "ivar" or op == "bvar":
            r = env.get(a[0], 0.0 if op == "var" else 0)
        elif op == "fmul":
            r = v[a[0].id] * v[a[1].id]
        elif op == "fadd":
            r = v[a[0].id] + v[a[1].id]
        elif op == "fsub":
            r = v[a[0].id] - v[a[1].id]
        elif op == "fdiv":
            r = _div(v[a[0].id], v[a[1].id])
        elif op == "fneg":
            r = -v[a[0].id]
        elif op == "fn":
            r = fnv(a[0], [v[x.id] for x in a[1:] if isinstance(x, N)])
        elif op == "fptrunc":
            import struct
            try:
                r = struct.unpack("f", struct.pack("f", v[a[0].id]))[0]
            except OverflowError:
                r = math.copysign(INF, v[a[0].id])
        elif op == "ite":
            r = v[a[1].id] if v[a[0].id] else v[a[2].id]
        elif op == "true":
            r = True
        elif op == "false":
            r = False
        elif op == "not":
            r = not v[a[0].id]
        elif op == "and":
            r = v[a[0].id] and v[a[1].id]
        elif op == "or":
            r = v[a[0].id] or v[a[1].id]
        elif op == "xor":
            r = v[a[0].id] != v[a[1].id]
        elif op == "fcmp":
            r = dag._FCMP[a[0]](v[a[1].id], v[a[2].id])
        elif op == "ford":
            r = v[a[0].id] == v[a[0].id]
        elif op == "fclass":
            r = bool(a[0] & dag.class_of(dag.f2bits(v[a[1].id])))
        elif op == "fsign":
            r = math.copysign(1.0, v[a[0].id]) < 0
        elif op == "iconst":
            r = a[0]
        elif op == "ibin":
            w = n.s[1]
            r = dag.ibin(a[0], dag.iconst(w, int(v[a[1].id])), dag.iconst(w, int(v[a[2].id]))).a[0]
        elif op == "icmp":
            w = a[1].s[1]
            r = dag.icmp(a[0], dag.iconst(w, int(v[a[1].id])), dag.iconst(w, int(v[a[2].id]))) is dag.TRUE
        elif op == "zextb":
            r = int(v[a[0].id])
        elif op == "icast":
            w = n.s[1]
            x = int(v[a[1].id])
            r = (dag.sgn(a[1].s[1], x) if a[0] == "sext" else x) & ((1 << w) - 1)
        elif op == "bits":
            r = dag.f2bits(v[a[0].id])
        elif op == "frombits":
            r = dag.bits2f(int(v[a[0].id]) & ((1 << 64) - 1))
        else:
            raise NotImplementedError(op)
        v[n.id] = r
    return v


def conditions(res):
    out = []
    for n in dag.walk(res.nodes()):
        if n.op == "fcmp":
            order = dag.walk([n])
            if any(x.op == "var" for x in order):
                out.append((n, order))
    out.sort(key=lambda t: len(t[1]))
    return out[:60]


def guided(params, res, gen, rnd, seconds=4.0, wide=False):
    """yields argument lists around the changes of the code's decisions"""
    names = var_names(params)
    flat = [n for ns in names for n in ns]
    if not flat:
        return
    try:
        conds = conditions(res)
    except Exception:
        return
    if not conds:
        return
    pool = []
    t0 = time.time()
    grid = [10.0 ** (k / 3) for k in range(-90, 91)]
    if wide:
        grid = [10.0 ** (2 * k) for k in range(-145, -15)] + grid + [10.0 ** (2 * k) for k in range(16, 146)]
    rounds = 0

    def split(f):
        out, i = [], 0
        for ns in names:
            out.append(f[i:i + len(ns)])
            i += len(ns)
        return out

    while time.time() - t0 < seconds and rounds < 400:
        rounds += 1
        for cond, order in conds:
            if time.time() - t0 > seconds:
                return
            b = rnd.choice(pool) if pool and rnd.random() < .6 else gen(rnd)
            b = [list(map(float, a)) for a in b[:len(names)]]
            f = [x for a in b for x in a]
            if len(f) != len(flat):
                return
            mode = rnd.randrange(4)
            if mode == 0:
                sel = list(range(len(flat)))
            elif mode == 1:
                k = rnd.randrange(len(names))
                o = sum(len(ns) for ns in names[:k])
                sel = list(range(o, o + len(names[k])))
            elif mode == 2:
                sel = [rnd.randrange(len(flat))]
            else:
                sel = rnd.sample(range(len(flat)), rnd.randint(1, len(flat)))
            for i in sel:
                if f[i] == 0.0 and (len(sel) == 1 or rnd.random() < .3):
                    f[i] = rnd.uniform(-2, 2)
            x, y = cond.a[1], cond.a[2]

            def at(t):
                g = list(f)
                for i in sel:
                    g[i] *= t
                v = evaluate(order, dict(zip(flat, g)))
                return v[x.id] - v[y.id], g
            try:
                prev = None
                for t in grid:
                    d, g = at(t)
                    if d != d:
                        prev = None
                        continue
                    if prev is not None and (d > 0) != (prev[1] > 0):
                        lo, hi = prev[0], t
                        for _ in range(60):
                            m = math.sqrt(lo * hi)
                            if not lo < m < hi:
                                break
                            dm, _g = at(m)
                            if dm == dm and (dm > 0) == (prev[1] > 0):
                                lo = m
                            else:
                                hi = m
                        for s in (lo, hi, lo * (1 - 1e-9), hi * (1 + 1e-9), lo * .99, hi * 1.01, lo * .5, hi * 2, hi * 10 ** rnd.uniform(0, 3), lo * 10 ** rnd.uniform(-3, 0)):
                            a = split(at(s)[1])
                            if len(pool) < 60:
                                pool.append(a)
                            else:
                                pool[rnd.randrange(60)] = a
                            yield a
                    prev = (t, d)
            except (NotImplementedError, KeyError, OverflowError):
                continue
