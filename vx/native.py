"""Replay on the real code: runs the compiled wrappers on concrete inputs and compares with the contract evaluated in
multi-precision arithmetic.  Used to confirm a refuted obligation with a failing input, and as a bounded stand-in (labelled so)
for what the verifier leaves open (rounding of transcendental functions)."""
import math, mmap, os, pickle, random, select, signal, struct, sys, time
import mpmath
from . import api, dag, spec
from .api import T
from .core import NK, NMK, NMaj, Any, parts

U = 2.0 ** -53
GEN_CONSTS = [1e-8, 1e-6, 1e-4, 1e-3, 1e-12, 2.0 ** -52, 1e-15, 1e-16, 1e4, 1e6, 1e8, 0.5, 0.1]
MINN = 2.0 ** -1022


def isvalid(x):
    return x == 0 or (math.isfinite(x) and abs(x) >= MINN)


def near(x, rnd):
    m = rnd.choice([1.0, 1.0, 0.5, 2.0, 0.999, 1.001, rnd.uniform(.3, 3)])
    return x * m


def gen(params, rnd, consts=(), e=25):
    mode = rnd.randrange(9)
    args = []
    sc = 10 ** rnd.uniform(-e, e)
    tiny = 10 ** rnd.uniform(-18, -3)
    for k, t in enumerate(params):
        n = len(T[t][1])
        v = []
        for i in range(n):
            r = rnd.random()
            if mode == 0:
                x = rnd.uniform(-2, 2)
            elif mode == 1:
                x = float(rnd.randint(-3, 3))
            elif mode == 2:
                x = rnd.choice([-1, 1]) * 10 ** rnd.uniform(-3, 3)
            elif mode == 3:
                x = rnd.uniform(-4, 4) if r < .4 else 0.0
            elif mode == 4:
                x = rnd.uniform(-2, 2) * sc
            elif mode == 5:
                x = rnd.choice([-1, 1]) * near(rnd.choice(consts), rnd) if consts and r < .7 else rnd.choice([0.0, 1.0, -1.0, rnd.uniform(-2, 2)])
            elif mode == 6:
                x = rnd.uniform(-2, 2) * (tiny if r < .5 else 1)
            elif mode == 7:
                x = rnd.choice([0.0, 1.0, -1.0, 2.0, -0.5])
            else:
                x = rnd.uniform(-8, 8)
            v.append(x)
        if args and len(args[-1]) == n and rnd.random() < .12:
            v = [s * x for s, x in zip([rnd.choice([1, 1, -1])] * n, args[-1])]
        args.append(v)
    return args


def degrees(c):
    """degree of the contract's polynomials in each operand"""
    if not hasattr(c, "degs"):
        rnd = random.Random(5)
        out = []
        base = [[rnd.uniform(1, 2) for _ in T[t][1]] for t in c.params]

        def size(a):
            w = c.spec(NMK(), *[spec.lift(t, [NMaj(x) for x in v], NMK.zero) for t, v in zip(c.params, a)])
            return [x.p for x in w]
        w0 = size(base)
        for k in range(len(base)):
            w1 = size([[x * 1024 for x in v] if i == k else v for i, v in enumerate(base)])
            out.append(max([int(math.ceil(math.log2(float(b / a)) / 10 - 1e-9)) for a, b in zip(w0, w1) if a and b] or [1]))
        c.degs = [max(d, 1) for d in out]
    return c.degs


def wide(c, rnd):
    """operands of very different sizes, none of whose products leaves the range of doubles"""
    args = gen(c.params, rnd, (), 0)
    lo = hi = 290.0
    ks = list(range(len(args)))
    rnd.shuffle(ks)
    for j, k in enumerate(ks):
        d = degrees(c)[k]
        down = rnd.random() < .7
        e = rnd.uniform(0, lo / d if down else hi / d) * rnd.choice([1, 1, .6, .2])
        sep = rnd.random()
        for i, x in enumerate(args[k]):
            if sep < .5 or rnd.random() < .5:
                args[k][i] = x * 10.0 ** (-e if down else e)
        if down:
            lo -= d * e
        else:
            hi -= d * e
    return args


def tiny(c, rnd):
    """components across the whole range, subnormal numbers and equal ones among them"""
    args = gen(c.params, rnd, (), 0)
    for a in args:
        for i, x in enumerate(a):
            r = rnd.random()
            if r < .3:
                a[i] = rnd.choice([-1, 1]) * rnd.uniform(0, 1) * 10.0 ** rnd.uniform(-323, -300)
            elif r < .35:
                a[i] = rnd.choice([-1, 1]) * rnd.uniform(.1, 1.79) * 1e308
            elif r < .5:
                a[i] = rnd.choice([-1, 1]) * 10.0 ** rnd.uniform(-300, 299)
            elif r < .6:
                a[i] = math.nextafter(args[0][i % len(args[0])], rnd.choice([-9.0, 9.0]))
    return args


def fits(c, args):
    if c.poly and c.spec and c.exact is None:
        return c.roundings is not None or inside(c, args)
    return all(not x or 1e-60 < abs(x) < getattr(c, "lim", 1e60) for a in args for x in a)


def inside(c, args):
    """no product of the operands' components overflows or underflows"""
    lo = hi = 0.0
    for a, d in zip(args, degrees(c)):
        z = [math.log10(abs(x)) for x in a if x]
        if z:
            lo += d * min(min(z), 0)
            hi += d * max(max(z), 0)
    return lo > -290 and hi < 290


def dag_consts(res):
    out = set()
    if res is None:
        return []
    for n in dag.walk(res.nodes()):
        if n.op == "const":
            x = abs(dag.cval(n))
            if x and math.isfinite(x) and 1e-120 < x < 1e120:
                out |= {x, math.sqrt(x)}
                if 1e-60 < x < 1e60:
                    out |= {x * x}
    return sorted(out)[:60]


def shape(c, args):
    try:
        w = want_of(c, args)
    except (ValueError, ZeroDivisionError, OverflowError):
        return "error"
    if isinstance(w, (str, bool)) or w is None:
        return w
    return [tuple(p is None for p in parts(x, 2 if c.ret == "md" else 1)) for x in (w if isinstance(w, Any) else [w])]


def settled(c, args):
    """the contract asks for the same kind of answer for the input scaled by a hair (rounding decides on a boundary, so an input
    on one is no evidence)"""
    if c.poly or not (c.pre or c.ens or c.spec):
        return True
    s = shape(c, args)
    for k in range(len(args)):
        for e in (1e-13, -1e-13):
            b = [[x * (1 + e) for x in a] if i == k else a for i, a in enumerate(args)]
            if shape(c, b) != s:
                return False
    return True


def want_of(c, args):
    K = NK()
    m = [spec.lift(t, [mpmath.mpf(x) for x in a], K.zero) for t, a in zip(c.params, args)]
    if c.pre:
        for rel, p in c.pre(K, *m):
            if not K.truth(rel, p):
                return "skip"
    return c.spec(K, *m) if c.spec else None


def judge_ens(c, args, got):
    K = NK()
    m = [spec.lift(t, [mpmath.mpf(x) for x in a], K.zero) for t, a in zip(c.params, args)]
    if any(not math.isfinite(x) for x in got):
        return "the result is not finite"
    e = c.ens(K, [mpmath.mpf(x) for x in got], *m)
    if isinstance(e, Any):
        ds = [judge_list(a) for a in e]
        return None if any(d is None for d in ds) else ds[0]
    return judge_list(e)


def judge_list(e):
    for nm, rel, term, scale in e:
        t = abs(scale) * mpmath.mpf(10) ** -12 + mpmath.mpf(10) ** -290
        if (rel == "eq" and abs(term) > t) or (rel in ("ge", "gt") and term < -t):
            return nm + f" (off by {mpmath.nstr(abs(term), 5)})"
    return None


def judge(c, args, got):
    d = judge_(c, args, got)
    return d if d and (c.njudge or c.exact is not None or c.tight or settled(c, args)) else None


def judge_(c, args, got):
    """None if the real code's result meets the contract, else a description"""
    if c.njudge:
        return c.njudge(args, got)
    if c.exact is not None:
        return None if all(g == w or (g != g and w != w) for g, w in zip(got, c.exact)) else f"is {got}, the contract requires {c.exact}"
    try:
        want = want_of(c, args)
        if not isinstance(want, str) and c.ens:
            d = judge_ens(c, args, got)
            if d:
                return d
    except (ValueError, ZeroDivisionError, OverflowError):
        return None
    if isinstance(want, str) or c.spec is None or c.ret == "bool" and want is None:
        return None
    if c.ret == "bool":
        return None if got == want else f"returned {got}, the contract requires {want}"
    if isinstance(want, Any):
        ds = [judge_one(c, args, got, w) for w in want]
        return None if any(d is None for d in ds) else ds[0]
    return judge_one(c, args, got, want)


def judge_one(c, args, got, want):
    n = 2 if c.ret == "md" else 1
    wp = parts(want, n)
    for q, p in enumerate(wp):
        own = got[8 * q:8 * q + 8]
        if p is None and not any(not isvalid(x) for x in own):
            return f"returned the valid value {own}, the contract requires null"
    want = [x for p in wp for x in (p or [mpmath.mpf("nan")] * 8)]
    skip = [p is None for p in wp for _ in range(8)]
    top = 1e290 if c.roundings is None or not c.poly else 1.797e308
    if any(abs(w) > top for w in want):
        return None                 # overflow is set aside
    if c.poly and c.roundings is None and not inside(c, args):
        return None
    tols = tolerances(c, args, want)
    size = [mpmath.sqrt(sum(w * w for w in p)) if p else 0 for p in wp]
    size = [z if z else mpmath.inf for z in size]
    for i, (g, w, t) in enumerate(zip(got, want, tols)):
        if skip[i]:
            continue
        if abs(w) > max(top, 1e300) or (w != 0 and abs(w) < 1e-290 and t is not None):
            continue
        if t is not None and t > size[i // 8] / 10:
            continue                # so badly conditioned that rounding decides
        if not math.isfinite(g):
            return f"component {api.COMP[i % 8]} is {g!r}, expected {mpmath.nstr(w, 17)}"
        if t is None:
            if g != float(w):
                return f"component {api.COMP[i % 8]} is {g!r}, expected exactly {float(w)!r}"
        elif abs(mpmath.mpf(g) - w) > t:
            return f"component {api.COMP[i % 8]} is {g!r}, expected {mpmath.nstr(w, 17)} within {mpmath.nstr(t, 3)}"
    return None


def tolerances(c, args, want):
    if c.poly:
        if c.roundings is not None:
            return [None] * len(want)
        m = [spec.lift(t, [NMaj(x) for x in a], NMK.zero) for t, a in zip(c.params, args)]
        w = c.spec(NMK(), *m)
        return [x.p * 300 * U + mpmath.mpf(10) ** -290 for x in w]
    if c.relative:
        return [abs(w) * 80 * U + mpmath.mpf(10) ** -290 for w in want]
    if c.tol:
        t = c.tol(args, want)
        return t if isinstance(t, list) else [t] * len(want)
    n = mpmath.sqrt(sum(w * w for w in want if w == w))
    return [n * mpmath.mpf(10) ** -13 + mpmath.mpf(10) ** -290] * len(want)


def call(prog, c, args):
    """the real code on one input (contracts with an index: the last list holds it)"""
    if hasattr(c, "ncall"):
        return c.ncall(prog, args)
    if getattr(c, "extra", ""):
        return prog.h.run(c.name, args[:-1], extra=[int(x) for x in args[-1]])
    return prog.h.run(c.name, args)


def search(prog, c, seed, hints=(), consts=(), budget=8.0, trials=20000, res=None):
    """look for a failing input; returns (input, description, got, tried).  The code under test runs in a child process, so
    that a crash or a hang of a changed tree is an answer and not the end of the check."""
    if hasattr(prog, "native"):
        prog.native()
    prog.h.so()
    shm = mmap.mmap(-1, 1 << 16)
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            os.close(rd)
            r = _search(prog, c, seed, hints, consts, budget, trials, shm, res)
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps(r))
            os._exit(0)
        except BaseException:
            os._exit(77)
    os.close(wr)
    data = b""
    end = time.time() + budget * 2 + 30
    while True:
        w = max(0, end - time.time())
        if not select.select([rd], [], [], w)[0]:
            break
        b = os.read(rd, 1 << 16)
        if not b:
            break
        data += b
    os.close(rd)
    hung = time.time() >= end
    if hung:
        os.kill(pid, signal.SIGKILL)
    _, st = os.waitpid(pid, 0)
    if data and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
        return pickle.loads(data)
    if hung or os.WIFSIGNALED(st):
        n = int.from_bytes(shm[:8], "little")
        args = pickle.loads(shm[8:8 + n]) if n else []
        return args, ("does not return" if hung else f"is ended by signal {os.WTERMSIG(st)}"), None, 1
    return None, None, None, 0


def _search(prog, c, seed, hints, consts, budget, trials, shm, res=None):
    rnd = random.Random(f"{seed}/{c.name}")
    t0 = time.time()
    tried = 0
    cand = []
    from .core import var_names
    names = var_names(c.params)
    for h in hints:
        if h:
            try:
                a = [[float(h.get(n, 0.0)) for n in ns] for ns in names]
                if not hasattr(c, "poly") or all(math.isfinite(x) and (not x or 1e-150 < abs(x) < getattr(c, "lim", 1e150)) for v in a for x in v):
                    cand.append(a)
            except (TypeError, OverflowError):
                pass
    if len(cand) == 1:
        b = cand[0]
        for s in (1e-3, 1e3, .5, 2, 1 + 1e-9):
            cand.append([[x * s for x in v] for v in b])
    g = c.gen or (lambda r: gen(c.params, r, consts))
    more = iter(())
    if res is not None and c.params and not hasattr(c, "ncall") and getattr(c, "guide", True):
        from . import guide
        more = guide.guided(c.params, res, lambda r: g(r)[:len(c.params)], random.Random(f"{seed}/{c.name}/g"), budget / 3,
                              wide=getattr(c, "poly", False))
    if not c.params:
        trials = 1
        g = lambda r: []
    poly = getattr(c, "poly", False) and c.spec and c.params and c.exact is None and not getattr(c, "extra", "") and c.gen is None
    glen = len(g(random.Random(1)))
    while tried < trials and time.time() - t0 < budget:
        args = cand.pop(0) if cand else None
        if args is not None and len(args) != glen:
            args = args + g(rnd)[len(args):]
        if args is None and tried % 2:
            args = next(more, None)
            while args is not None and hasattr(c, "poly") and not fits(c, args):
                args = next(more, None)
            if args is not None and getattr(c, "extra", ""):
                args = args + [g(rnd)[-1]]
        if args is None and tried % 4 == 2 and poly:
            args = wide(c, rnd) if c.roundings is None else tiny(c, rnd)
        if args is None:
            args = g(rnd)
        if tried % 9 == 8 and not cand:
            args = [[x if isinstance(x, str) else float(x) for x in a] for a in args]
        b = pickle.dumps(args)
        if len(b) < 65000:
            shm[8:8 + len(b)] = b
            shm[:8] = len(b).to_bytes(8, "little")
        got = call(prog, c, args)
        tried += 1
        d = judge(c, args, got)
        if d:
            return args, d, got, tried
    return None, None, None, tried
