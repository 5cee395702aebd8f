"""Contracts assumed for what lies outside /repo: LLVM intrinsics, libm, abnormal exits, and iostreams.

Each libm function becomes an uninterpreted 'fn' node; the theories say what is assumed about it.
"""
from . import dag
from .dag import const, fn, fneg, mk, TRUE, FALSE, ITE, NOT, AND, OR
from .ir import Unsupported, DOUBLE, PTR
from .symex import Out, Agg, Ptr, PIte, PInt, Fn, NULL

MATH1 = {"sqrt", "cos", "sin", "exp", "log", "tan", "acos", "asin", "atan", "sinh", "cosh", "tanh", "log1p", "expm1", "floor",
         "ceil", "trunc", "round", "rint", "nearbyint", "cbrt", "exp2", "log2", "log10", "asinh", "acosh", "atanh"}
MATH2 = {"atan2", "pow", "hypot", "fmod", "fdim", "remainder"}
CPLX1 = {"csqrt", "cexp", "clog", "ccosh", "csinh", "ccos", "csin", "ctanh", "ctan"}


# calls with an effect outside the arguments (recorded; the value returned is unspecified)
IMPURE = {"printf": "i", "puts": "i", "putchar": "i", "fprintf": "i", "fputs": "i", "fputc": "i", "putc": "i", "fwrite": "l", "write": "l", "fflush": "i",
          "perror": "v", "vprintf": "i", "srand": "v", "rand": "i", "time": "l", "clock": "l", "system": "i", "setenv": "i", "unlink": "i",
          "remove": "i", "fesetround": "i", "feclearexcept": "i", "feenableexcept": "i", "setlocale": "l", "getenv": "l", "srand48": "v",
          "feraiseexcept": "i", "signal": "l", "atexit": "i", "close": "i", "sleep": "i", "usleep": "i",
          "fetestexcept": "i", "fegetround": "i", "fegetenv": "i", "fesetenv": "i", "feholdexcept": "i", "feupdateenv": "i", "fegetexceptflag": "i",
          "fesetexceptflag": "i", "clock_gettime": "i", "gettimeofday": "i", "getpid": "i", "gettid": "i", "pthread_self": "l", "sched_getcpu": "i",
          "sched_yield": "i", "pthread_mutex_lock": "i", "pthread_mutex_unlock": "i", "pthread_mutex_trylock": "i", "nanosleep": "i", "drand48": "d", "random": "l", "srandom": "v", "secure_getenv": "l", "putenv": "i", "localeconv": "l",
          "_ZNSt6chrono3_V212steady_clock3nowEv": "l", "_ZNSt6chrono3_V212system_clock3nowEv": "l"}


def fmax(a, b):
    # C fmax: if one argument is NaN return the other
    ga = dag.fcmp("ogt", b, a)
    return ITE(ga, b, ITE(dag.fcmp("ord", a, a), a, b))


def fmin(a, b):
    ga = dag.fcmp("ogt", a, b)
    return ITE(ga, b, ITE(dag.fcmp("ord", a, a), a, b))


def pure(f):
    def h(ex, st, args, ins):
        return [Out(st, f(*args))]
    return h


def pow_(a, b):
    if dag.isconst(b):
        e = dag.cval(b)
        if e == 2.0:
            return dag.arith("fmul", a, a)
        if e == 1.0:
            return a
        if e == 0.0:
            return const(1.0)
        if e == 0.5:
            return fn("sqrt", a)
        if e == -1.0:
            return dag.arith("fdiv", const(1.0), a)
        if e == 3.0:
            return dag.arith("fmul", dag.arith("fmul", a, a), a)
    return fn("pow", a, b)


def sincos(ex, st, args, ins):
    x, ps, pc = args
    rs = ex.store(st, ps, DOUBLE, fn("sin", x))
    if len(rs) != 1 or rs[0][1]:
        raise Unsupported("sincos")
    rs = ex.store(rs[0][0], pc, DOUBLE, fn("cos", x))
    return [Out(rs[0][0], None, rs[0][1])]


def mem_fn(ex, st, args, ins):
    n = args[2]
    if not dag.isic(n):
        raise Unsupported("memcpy of symbolic size")
    return [Out(s, args[0], e) for s, e in ex.memcpy(st, args[0], args[1], n.a[0])]


def memset_fn(ex, st, args, ins):
    p, v, n = args[:3]
    if not (dag.isic(v) and v.a[0] == 0 and dag.isic(n)):
        raise Unsupported("memset of non-zero")
    if n.a[0]:
        e = ex.check(st, p, n.a[0], True)
        if e:
            return [Out(st, None, e)]
        ex.zero_range(st, p.al, p.off, n.a[0])
    return [Out(st, p)]


def abnormal(what):
    def h(ex, st, args, ins):
        return [Out(st, None, what)]
    return h


def lib(m, d):
    """handler for function with mangled name m, demangled name d, or None"""
    if m in MATH1:
        return pure(lambda x: fn(m, x))
    if m.endswith("f") and m[:-1] in MATH1 and m not in ("erf",):
        return pure(lambda x: mk("fptrunc", "d", fn(m[:-1], x)))
    if m == "fabs":
        return pure(lambda x: fn("fabs", x))
    if m == "fabsf":
        return pure(lambda x: fn("fabs", x))
    if m == "pow":
        return pure(pow_)
    if m in MATH2:
        return pure(lambda x, y: fn(m, x, y))
    if m == "fma":
        return pure(lambda x, y, z: fn("fma", x, y, z))
    if m == "cabs":
        return pure(lambda x, y: fn("hypot", x, y))
    if m == "carg":
        return pure(lambda x, y: fn("atan2", y, x))
    if m in CPLX1:
        return pure(lambda x, y: Agg([fn(m + "_re", x, y), fn(m + "_im", x, y)]))
    if m == "cpow":
        return pure(lambda a, b, c, e: Agg([fn("cpow_re", a, b, c, e), fn("cpow_im", a, b, c, e)]))
    if m == "__muldc3":
        return pure(lambda a, b, c, e: Agg(muldc3(a, b, c, e)))
    if m == "__divdc3":
        return pure(lambda a, b, c, e: Agg([fn("cdiv_re", a, b, c, e), fn("cdiv_im", a, b, c, e)]))
    if m == "fmax":
        return pure(fmax)
    if m == "fmin":
        return pure(fmin)
    if m == "copysign":
        return pure(lambda x, y: copysign(x, y))
    if m == "sincos":
        return sincos
    if m in ("memcpy", "memmove"):
        return mem_fn
    if m == "memset":
        return memset_fn
    if m.startswith("llvm."):
        b = m.split(".")[1]
        if b == "is":
            return pure(lambda x, k: dag.fclass(k.a[0], x))
        if b == "fabs":
            return pure(lambda x: fn("fabs", x))
        if b == "sqrt":
            return pure(lambda x: fn("sqrt", x))
        if b == "fma":
            return pure(lambda x, y, z: fn("fma", x, y, z))
        if b == "fmuladd":
            return pure(lambda x, y, z: dag.arith("fadd", dag.arith("fmul", x, y), z))
        if b in ("memcpy", "memmove"):
            def h(ex, st, args, ins):
                return [Out(o.st, None, o.abn) for o in mem_fn(ex, st, args[:3], ins)]
            return h
        if b == "memset":
            return memset_fn
        if b == "copysign":
            return pure(copysign)
        if b == "maxnum":
            return pure(fmax)
        if b == "minnum":
            return pure(fmin)
        if b in ("umax", "umin", "smax", "smin"):
            pred = {"umax": "ugt", "umin": "ult", "smax": "sgt", "smin": "slt"}[b]
            return pure(lambda x, y: ITE(dag.icmp(pred, x, y), x, y))
        if b == "trap":
            return abnormal("trap")
        if b in ("floor", "ceil", "trunc", "round", "rint", "nearbyint"):
            return pure(lambda x: fn(b, x))
        if b == "threadlocal":
            return pure(lambda x: x)
        if b in ("stacksave",):
            return pure(lambda: NULL)
        if b in ("stackrestore", "donothing", "prefetch", "var"):
            return pure(lambda *a: None)
        return None
    if m in ("abort", "exit", "_exit", "__assert_fail", "__cxa_throw", "__cxa_rethrow", "_ZSt9terminatev", "raise"):
        return abnormal("call of " + m)
    if d.startswith("std::__throw_") or d.startswith("std::__glibcxx_assert_fail"):
        return abnormal("call of " + d.split("(")[0])
    if m == "__cxa_guard_acquire":
        def acq(ex, st, args, ins):
            st.ghost[(0, "init")] = st.ghost.get((0, "init"), 0) + 1
            return [Out(st, dag.iconst(32, 1))]
        return acq
    if m == "__cxa_guard_release":
        def rel(ex, st, args, ins):
            st.ghost[(0, "init")] -= 1
            st.ghost[(args[0].al, "guard")] = 1
            return [Out(st, None)]
        return rel
    if m in ("_Znwm", "_Znam", "malloc", "_ZnwmRKSt9nothrow_t"):
        def new(ex, st, args, ins):
            if not dag.isic(args[0]):
                raise Unsupported("allocation of symbolic size")
            return [Out(st, Ptr(ex.alloc(st, args[0].a[0], "heap", "memory from " + m), 0))]
        return new
    if m in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free"):
        def delete(ex, st, args, ins):
            p = args[0]
            if isinstance(p, Ptr) and p.al == 0:
                return [Out(st, None)]
            if not isinstance(p, Ptr) or p.al not in st.size or st.size[p.al][1] != "heap" or p.off:
                return [Out(st, None, "release of memory that is not allocated")]
            st.mem.pop(p.al)
            st.size.pop(p.al)
            return [Out(st, None)]
        return delete
    if m in IMPURE:
        def imp(ex, st, args, ins):
            st.ev = st.ev + (("call of", m),)
            k = IMPURE[m]
            return [Out(st, dag.iconst(32, 0) if k == "i" else dag.iconst(64, 0) if k == "l" else const(0.0) if k == "d" else None)]
        return imp
    if m == "__errno_location":
        # what errno holds when the function is entered is nobody's promise: unspecified memory.  Once the function has written it,
        # what a libm call leaves there is not modelled.
        def errno(ex, st, args, ins):
            al = st.ghost.get((0, "errno"))
            if al is None:
                al = st.ghost[(0, "errno")] = ex.alloc(st, 4, "errno", "errno")
            elif st.mem.get(al):
                raise Unsupported("errno after it was written")
            return [Out(st, Ptr(al, 0))]
        return errno
    if m == "__gxx_personality_v0":
        return None
    from . import iomodel
    return iomodel.lib(m, d)


def muldc3(a, b, c, d):
    """complex product with the recovery of infinities of C11 Annex G (libgcc's __muldc3)"""
    A = dag.arith
    nan = lambda v: NOT(dag.fcmp("ord", v, v))
    inf = lambda v: dag.fclass(4 | 512, v)
    box = lambda v: copysign(ITE(inf(v), const(1.0), const(0.0)), v)
    zn = lambda v: ITE(nan(v), copysign(const(0.0), v), v)
    ac, bd, ad, bc = A("fmul", a, c), A("fmul", b, d), A("fmul", a, d), A("fmul", b, c)
    x, y = A("fsub", ac, bd), A("fadd", ad, bc)
    bad = AND(nan(x), nan(y))
    r1 = OR(inf(a), inf(b))
    a1, b1 = ITE(r1, box(a), a), ITE(r1, box(b), b)
    c1, d1 = ITE(r1, zn(c), c), ITE(r1, zn(d), d)
    r2 = OR(inf(c1), inf(d1))
    c2, d2 = ITE(r2, box(c1), c1), ITE(r2, box(d1), d1)
    a2, b2 = ITE(r2, zn(a1), a1), ITE(r2, zn(b1), b1)
    r3 = AND(NOT(OR(r1, r2)), OR(OR(inf(ac), inf(bd)), OR(inf(ad), inf(bc))))
    a3, b3, c3, d3 = (ITE(r3, zn(v), v) for v in (a2, b2, c2, d2))
    rec = AND(bad, OR(OR(r1, r2), r3))
    I = const(float("inf"))
    x2 = A("fmul", I, A("fsub", A("fmul", a3, c3), A("fmul", b3, d3)))
    y2 = A("fmul", I, A("fadd", A("fmul", a3, d3), A("fmul", b3, c3)))
    return ITE(rec, x2, x), ITE(rec, y2, y)


def copysign(x, y):
    ax = fn("fabs", x)
    s = mk("fsign", "b", y) if not dag.isconst(y) else dag.boolc(bool(y.a[0] >> 63))
    return ITE(s, fneg(ax), ax)
