"""Purity (P21): every public operation executed for its effects instead of its value.

The wrappers hand the operation references straight into the caller's memory ("in" allocations are read-only for the
verifier), so a write to an argument, an access outside it, an abort or exception, output, a read or write of mutable
global state, unreleased memory and a result that depends on uninitialised memory each show up as an outcome or an event.
Each must be impossible for all argument bit patterns.  A second wrapper passes the same object for operands of equal type."""
import ctypes, math, os, struct, time
import z3
from . import api, contracts as K, core, dag, fcon, fdom, iocon, iomodel, lib, symex
from .api import T, W
from .core import Ob, var_names
from .dag import const, AND, NOT, OR
from .fcon import FC, gen_special, path_node, prove
from .ir import Unsupported

PRE = r'''
#include <cstring>
#include <malloc.h>
namespace vx {
template <class T, int n> decltype(auto) rf(double const* p) { if constexpr (sizeof(T) == 8 * n) { return (*reinterpret_cast<T const*>(p)); } else { return ld<T>(p); } }
}
'''
NPRE = r'''
namespace vx {
__attribute__((noinline)) inline void scribble(int b) { volatile char a[8192]; std::memset((void*)a, b, sizeof a); }
}
extern "C" void vx_flush() { std::cout.flush(); std::cerr.flush(); std::clog.flush(); std::fflush(nullptr); }
'''
SIGN = {"bool": "bool", "int": "int"}


class PW(W):
    def __init__(self, name, w, alias=None, native=False):
        W.__init__(self, name, w.params, w.expr, ret=w.ret, pre=w.pre, extra=w.extra)
        ps = [f"double const* p{i}" for i in range(len(w.params))] + ([w.extra] if w.extra else [])
        b = "".join(f"auto const& a{i} = vx::rf<{T[t][0]}, {len(T[t][1])}>(p{(alias or {}).get(i, i)}); " for i, t in enumerate(w.params))
        if w.ret in ("bool", "int"):
            self.text = f'extern "C" {w.ret} {name}({", ".join(ps) or "void"}) {{ {b}{w.pre}return {w.expr}; }}'
        else:
            ps.append("double* o")
            e = (f"auto const r = ({w.expr}); vx::st(o, r.first); vx::st(o + 8, r.second);" if w.ret == "md" else
                 f"{w.expr};" if w.ret == "raw" else f"auto const r = ({w.expr}); vx::st(o, r);")
            self.text = f'extern "C" void {name}({", ".join(ps)}) {{ {b}{w.pre}{e} }}'


def native_text(name, base, w, alias=None):
    """called with the operands; returns a bit set: 1 argument changed, 2 results of repeated calls differ, 4 memory not released,
    8 the answer for one object used twice is not that for two equal objects"""
    n = len(w.params)
    ps = [f"double const* p{i}" for i in range(n)] + ([w.extra] if w.extra else []) + ["double const* const* q"]
    v = w.extra.split()[-1] if w.extra else ""
    b = 'double o[3][16]; std::memset(o, 0, sizeof o); long m0 = 0, m1 = 0; '
    b += "".join(f"double c{i}[8]; std::memcpy(c{i}, p{i}, {8 * len(T[t][1])}); double d{i}[8]; for (int k = 0; k < {len(T[t][1])}; ++k) d{i}[k] = c{i}[k] * (1. + 2e-13); "
                 for i, t in enumerate(w.params))

    def call(k, pat, q="c"):
        a = ", ".join([(f"q[{i}]" if q == "q" else f"{q}{i}") for i in range(n)] + ([v] if v else []))
        if w.ret in ("bool", "int"):
            return f"vx::scribble({pat}); o[{k}][0] = {base}({a}); "
        return f"vx::scribble({pat}); {base}({', '.join(x for x in [a] if x)}{', ' if a else ''}o[{k}]); "
    b += "errno = 0; std::feclearexcept(FE_ALL_EXCEPT); " + call(0, 0) + call(2, 0x55, "q") + call(2, 0x55, "d")
    b += "errno = ERANGE; std::feraiseexcept(FE_ALL_EXCEPT); " + call(1, 0x33) + "errno = 0; std::feclearexcept(FE_ALL_EXCEPT); " + "m0 = (long)mallinfo2().uordblks; " + call(2, 0xff) * 4 + "m1 = (long)mallinfo2().uordblks; "
    b += "int r = 0; " + "".join(f"r |= std::memcmp(c{i}, p{i}, {8 * len(T[t][1])}) ? 1 : 0; " for i, t in enumerate(w.params))
    b += "for (int i = 0; i < 16; ++i) { if (std::memcmp(&o[0][i], &o[1][i], 8) && !(o[0][i] != o[0][i] && o[1][i] != o[1][i])) r |= 2; } "
    if alias:
        b += "std::memset(o, 0, sizeof o); "
        b += "".join(f"double s{i}[8]; std::memcpy(s{i}, p{alias.get(i, i)}, {8 * len(T[t][1])}); double q{i}[8]; std::memcpy(q{i}, s{i}, sizeof q{i}); " for i, t in enumerate(w.params))
        for k, nm in ((0, lambda i: f"s{i}"), (1, lambda i: f"q{alias.get(i, i)}")):
            a = ", ".join([nm(i) for i in range(n)] + ([v] if v else []))
            b += f"o[{k}][0] = {base}({a}); " if w.ret in ("bool", "int") else f"{base}({a}, o[{k}]); "
        b += "for (int i = 0; i < 16; ++i) { if (std::memcmp(&o[0][i], &o[1][i], 8) && !(o[0][i] != o[0][i] && o[1][i] != o[1][i])) r |= 8; } "
    return f'extern "C" int {name}({", ".join(ps)}) {{ {b}if (m1 > m0) r |= 4; return r; }}'


class NW(W):
    def __init__(self, name, text):
        W.__init__(self, name, "", "")
        self.text = text


MSG = {8: "the result for one object used twice is not that for two equal objects", 1: "an argument is modified", 2: "repeated calls with the same arguments return different results", 4: "memory is not released"}


class PC(FC):
    def __init__(self, name, w, what, gen=None):
        FC.__init__(self, name, w.params, w.expr, None, None, ret=w.ret, what=what)
        self.gen = gen or (lambda r: gen_special(w.params, r))
        self.extra = w.extra.split()[-1] if w.extra else ""
        self.w = PW(name, w)
        same = {}
        first = {}
        for i, t in enumerate(w.params):
            if t in first and t != "d":
                same[i] = first[t]
            first.setdefault(t, i)
        self.alias = same
        self.nw = NW("pn_" + name, native_text("pn_" + name, name, w, same))
        self.njudge = lambda args, got: got or None

    def ncall(self, prog, args):
        so = native_so(prog)
        f = getattr(so, "pn_" + self.name)
        f.restype = ctypes.c_int
        n = len(self.params)
        arr = [(ctypes.c_double * max(1, len(a)))(*a) for a in args[:n]]
        other = [(ctypes.c_double * max(1, len(a)))(*[1.5 - 0.25 * i for i in range(len(a))]) for a in args[:n]]
        q = (ctypes.POINTER(ctypes.c_double) * max(1, n))(*[ctypes.cast(x, ctypes.POINTER(ctypes.c_double)) for x in other])
        ex = [ctypes.c_size_t(int(args[n][0]) if len(args) > n else 1)] if self.extra else []
        so.vx_flush()
        r = f(*arr, *ex, q)
        so.vx_flush()
        out = [m for b, m in MSG.items() if r & b]
        t = captured()
        if t:
            out.append("text is written to standard output or error: " + repr(t[:80]))
        return "; ".join(out)


_cap = {}


def captured():
    """what arrived on file descriptors 1 and 2 since the last call (only inside the child that runs the real code)"""
    if _cap.get("pid") != os.getpid():
        fd = os.memfd_create("out")
        _cap.update(pid=os.getpid(), fd=fd)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        return ""
    n = os.lseek(_cap["fd"], 0, os.SEEK_END)
    if not n:
        return ""
    os.lseek(_cap["fd"], 0, os.SEEK_SET)
    t = os.read(_cap["fd"], n).decode("latin1")
    os.ftruncate(_cap["fd"], 0)
    os.lseek(_cap["fd"], 0, os.SEEK_SET)
    return t


def native_so(prog):
    captured()
    return prog.nso


def build_native(prog, cs):
    """the native side is compiled only when something needs confirming"""
    import subprocess
    from .harness import REPO, SOFLAGS
    if hasattr(prog, "nso"):
        return
    h = prog.h
    src, out = os.path.join(h.dir, "n.cpp"), os.path.join(h.dir, "n.so")
    drop = set(h.dropped)
    text = h.source() + NPRE + "\n".join(c.nw.text for c in cs if c.name not in drop) + "\n"
    open(src, "w").write("#include <cstdio>\n#include <cerrno>\n#include <cfenv>\n" + text)
    r = subprocess.run(["g++", "-std=c++17", "-O1", "-w", "-D_GLIBCXX_ASSERTIONS", "-fno-strict-aliasing", "-ffp-contract=off", "-shared", "-fPIC", f"-I{REPO}/include", *[f for f in SOFLAGS if not f.startswith(("-U", "-D__"))], src, "-o", out],
                       capture_output=True, text=True)
    if r.returncode:
        raise Unsupported("native build: " + r.stderr[-600:])
    prog.nso = h._so = ctypes.CDLL(out)


def event_text(e):
    return e[0] + " " + str(e[1])


def dep(n, cache):
    """condition under which the value depends on uninitialised memory"""
    r = cache.get(n.id)
    if r is None:
        if n.op == "undef":
            r = dag.TRUE
        elif not fcon.has_undef(n):
            r = dag.FALSE
        elif n.op == "ite":
            c, a, b = n.a
            r = OR(dep(c, cache), OR(AND(c, dep(a, cache)), AND(NOT(c), dep(b, cache))))
        else:
            r = dag.FALSE
            for x in n.a:
                if isinstance(x, dag.N):
                    r = OR(r, dep(x, cache))
        cache[n.id] = r
    return r


def clean(path):
    """the path condition, and the condition under which following it depends on uninitialised memory"""
    p, d = dag.TRUE, dag.FALSE
    for c, pol in path:
        if fcon.has_undef(c):
            d = OR(d, AND(p, dep(c, {})))
        else:
            p = AND(p, c if pol else NOT(c))
    return p, d


def effects(abn, ev, outs):
    """-> [(label, condition that must be impossible)]"""
    goals = [(f"never ends abnormally ({why})", clean(path)[0]) for path, why in abn]
    goals += [("never: " + event_text(e), clean(path)[0]) for path, e in ev]
    for path, vals in outs:
        p, d = clean(path)
        if d is not dag.FALSE:
            goals.append(("control flow does not depend on uninitialised memory", d))
        for i, v in enumerate(vals):
            if v is None:
                goals.append((f"component {api.COMP[i % 8]} of the result is computed from initialised memory", p))
            elif isinstance(v, dag.N):
                v = fdom.simp(v, {}, {})
                if fcon.has_undef(v):
                    goals.append((f"component {api.COMP[i % 8]} of the result does not depend on uninitialised memory", AND(p, dep(v, {}))))
    return goals


class Verifier:
    failed = 0

    def __call__(self, prog, c):
        o = self.decide(prog, c)
        self.failed += o.status == "refuted"
        return o

    def decide(self, prog, c):
        limit = 2000 if self.failed > 5 else 8000
        t0 = time.time()
        ms = lambda: int(1000 * (time.time() - t0))
        if c.name in prog.h.dropped:
            return Ob(c.name, "missing", "the operation does not compile: " + prog.h.dropped[c.name])
        iv = [dag.ivar(64, c.extra)] if c.extra else []
        names = [n for ns in var_names(c.params) for n in ns]
        n = 0
        unk = None
        try:
            for kw in [{}] + ([{"equal": c.alias}, {"equal": c.alias, "alias": True}] if c.alias else []):
                r = prog.execute(c.name, ivars=iv, impure=True, **kw)
                goals = effects(r.abn, r.ev, r.outs)
                if not kw.get("alias"):
                    base = r
                n += 5 + len(goals)
                for lab, path in goals:
                    if kw:
                        lab += " (operands are the same object)"
                    g = fdom.simp(NOT(path), {}, {})
                    if g is dag.TRUE:
                        continue
                    if g is dag.FALSE:
                        return Ob(c.name, "refuted", lab, cex={x: 1.25 for x in names}, ms=ms())
                    env = fcon.sample(g, names, [c.extra] if c.extra else [], fns=None)
                    st, env = ("sat", env) if env else prove(g, names, limit)
                    if st == "sat":
                        return Ob(c.name, "refuted", lab, cex=env, ms=ms())
                    if st != "proved":
                        unk = unk or lab + " (not decided)"
                if kw.get("alias"):
                    n += 1
                    if self.key(base) != self.key(r):
                        lab = "same result when the operands are the same object"
                        for g in self.agree(base, r):
                            g = fdom.simp(g, {}, {})
                            if g is dag.TRUE:
                                continue
                            st, env = prove(g, names, limit)
                            if st == "sat":
                                return Ob(c.name, "refuted", lab, cex=env, ms=ms())
                            if st != "proved":
                                unk = unk or lab + " (not decided)"
        except iocon.ERRS + (z3.Z3Exception,) as e:
            return Ob(c.name, "unknown", f"{type(e).__name__}: {e}", ms=ms())
        if unk:
            return Ob(c.name, "unknown", unk, ms=ms())
        return Ob(c.name, "proved", f"{n} goals", "effects of symbolic execution + z3 (QF_FP)", ms=ms())

    def agree(self, r1, r2):
        for p1, v1 in r1.outs:
            for p2, v2 in r2.outs:
                p = AND(clean(p1)[0], clean(p2)[0])
                if p is dag.FALSE:
                    continue
                for x, y in zip(v1, v2):
                    if x is y:
                        continue
                    if not isinstance(x, dag.N) or not isinstance(y, dag.N):
                        yield NOT(p)
                    else:
                        yield OR(NOT(p), NOT(dag.XOR(x, y)) if x.s == "b" else fcon.same(x, y) if x.s == "d" else dag.icmp("eq", x, y))

    def key(self, r):
        """result for one shared object must equal the result for two objects with equal contents"""
        return sorted((tuple(sorted((x.id, p) for x, p in path)), tuple(v.id if isinstance(v, dag.N) else -1 for v in vals)) for path, vals in r.outs)


def everything():
    """every public operation once, as named by the contract families"""
    cs = (K.product_family() + K.add_family() + K.sub_family() + K.invol_family() + K.dual_family() + K.mag_family() +
          [f(t) for t in K.ALL[1:] for f in (K.pairmagdir, K.direction)] + [f(t) for t in K.TYPES for f in (K.ampsq, K.amplitude)] +
          [K.inverse(t) for t in "SVBTCM"] + [K.exp_B(), K.exp_P(), K.exp_M(), K.logG2(), K.logG2(True), K.sqrtG2(), K.sqrtG2(True)] +
          K.near_family() + fcon.validity() + fcon.comparisons() + fcon.access())
    seen = {}
    for c in cs:
        k = (c.w.params, c.w.expr, c.w.pre, c.w.ret, c.w.extra)
        if k not in seen:
            g = c.gen if getattr(c, "extra", "") else None
            seen[k] = PC("pu_" + c.name, c.w, c.what, g)
    return list(seen.values())


class TC(FC):
    """a text function: no other stream, no global state, no abnormal end"""

    def __init__(self, c, failed):
        FC.__init__(self, ("pf_" if failed else "pt_") + c.name, c.params, c.expr, None, None, what=c.what)
        self.c, self.failed = c, failed
        self.w, self.t, self.ivs = c.w, c.t, getattr(c, "ivs", ())
        self.gen = c.gen
        self.njudge = lambda args, got: got or None

    def ncall(self, prog, args):
        so = prog.nso
        captured()
        self.c.ncall(prog, args)
        so.vx_flush()
        t = captured()
        return "text is written to standard output or error: " + repr(t[:80]) if t else ""


def tverify(prog, c):
    t0 = time.time()
    ms = lambda: int(1000 * (time.time() - t0))
    if c.c.name in prog.h.dropped:
        return Ob(c.name, "missing", "the operation does not compile: " + prog.h.dropped[c.c.name])
    unk = None
    names = var_names(c.t)[0]
    try:
        ev = []
        ext = isinstance(c.c, iocon.In)
        good, abn = iocon.execute(prog, c.c, ext=ext, failed=c.failed, events=ev)
        goals = effects(abn, ev, [])
        for path, ret, cells, g in good:
            p, d = clean(path)
            if d is not dag.FALSE:
                goals.append(("control flow does not depend on uninitialised memory", d))
        for lab, g in goals:
            g = fdom.simp(NOT(g), {}, {})
            if g is dag.TRUE:
                continue
            if g is dag.FALSE:
                return Ob(c.name, "refuted", lab, ms=ms())
            st, env = prove(g, names, 8000)
            if st == "sat":
                return Ob(c.name, "refuted", lab, cex=env, ms=ms())
            if st != "proved":
                unk = unk or lab + " (not decided)"
    except iocon.ERRS + (z3.Z3Exception,) as e:
        return Ob(c.name, "unknown", f"{type(e).__name__}: {e}", ms=ms())
    if unk:
        return Ob(c.name, "unknown", unk, ms=ms())
    return Ob(c.name, "proved", f"{len(goals) + 4} goals", "effects of symbolic execution + z3 (QF_FP)", ms=ms())


def texts():
    return [TC(c, False) for c in iocon.outputs()] + [TC(c, f) for c in iocon.inputs() for f in (False, True)]
