"""Symbolic execution of LLVM IR into guarded expression DAGs.

Every path of the entry function is executed completely (the library's loops have constant trip counts; a loop whose trip
count is not determined raises Unsupported).  Outcomes of a call are merged into if-then-else values along the tree of
decisions taken inside the call, so each function yields one DAG per written cell plus its abnormal outcomes and events.
"""
import subprocess, re
from . import dag
from .dag import N, mk, const, fneg, fn, ITE, NOT, AND, OR, TRUE, FALSE
from .ir import Unsupported, Ty, DOUBLE, PTR, INT

MAX_VISITS = 2000
MAX_STEPS = 3_000_000
MAX_PATHS = 6000


class Ptr:
    __slots__ = ("al", "off")

    def __init__(self, al, off):
        self.al = al
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.al == self.al and o.off == self.off

    def __hash__(self):
        return hash((self.al, self.off))

    def __repr__(self):
        return f"&{self.al}+{self.off}"


class PIte:
    __slots__ = ("c", "x", "y")

    def __init__(self, c, x, y):
        self.c, self.x, self.y = c, x, y

    def __eq__(self, o):
        return isinstance(o, PIte) and o.c is self.c and o.x == self.x and o.y == self.y

    def __hash__(self):
        return hash((self.c.id, self.x, self.y))


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Fn) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class PInt:
    """integer obtained from a pointer"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return isinstance(o, PInt) and o.p == self.p

    def __hash__(self):
        return hash(("pi", self.p))


class Agg:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __eq__(self, o):
        return isinstance(o, Agg) and same(self.e, o.e)

    def __hash__(self):
        return hash(self.e)


class Zero:
    """all-zero bytes, type decided at load"""

    def __eq__(self, o):
        return isinstance(o, Zero)

    def __hash__(self):
        return 7


NULL = Ptr(0, 0)
STREAMS = {"@_ZSt4cout": "std::cout", "@_ZSt4cerr": "std::cerr", "@_ZSt4clog": "std::clog", "@_ZSt3cin": "std::cin"}


def closed(v):
    """a value that does not depend on any argument"""
    if isinstance(v, N):
        return not any(x.op in ("var", "ivar", "bvar", "undef") for x in dag.walk([v]))
    if isinstance(v, Agg):
        return all(closed(x) for x in v.e)
    return isinstance(v, (Ptr, Fn, Zero, bytes, PInt))


def same(a, b):
    if isinstance(a, N) or isinstance(b, N):
        return a is b
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


class State:
    __slots__ = ("mem", "size", "path", "known", "ev", "ghost", "ro")

    def __init__(self):
        self.mem = {}      # alloc -> {off: (size, value)}
        self.size = {}     # alloc -> (size, kind, name)
        self.path = ()     # decisions (cond, polarity)
        self.known = {}
        self.ev = ()       # events
        self.ghost = {}    # (alloc, off) -> immutable ghost value

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.size = dict(self.size)
        s.path = self.path
        s.known = dict(self.known)
        s.ev = self.ev
        s.ghost = dict(self.ghost)
        return s

    def decide(self, c, pol):
        self.path = self.path + ((c, pol),)
        self.known[c.id] = pol


class Out:
    """outcome of executing a function"""
    __slots__ = ("st", "ret", "abn")

    def __init__(self, st, ret, abn=None):
        self.st, self.ret, self.abn = st, ret, abn


_dem_cache = {}


def demangle_all(names):
    names = [n for n in names if n not in _dem_cache]
    if not names:
        return
    # drop the newer mangling production Tn (constrained non-type parameter) that binutils c++filt does not know
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    out = r.stdout.split("\n")
    for n, d in zip(names, out):
        _dem_cache[n] = d


def demangle(n):
    if n not in _dem_cache:
        demangle_all([n])
    return _dem_cache[n]


class Exec:
    def __init__(self, mod, contracts=None, lib=None, max_paths=MAX_PATHS):
        self.mod = mod
        self.contracts = contracts or {}
        self.lib = lib
        self.next_al = 1
        self.gal = {}
        self.steps = 0
        self.inlined = set()
        self.used_contracts = set()
        self.external = set()
        self.max_paths = max_paths
        self.npaths = 0
        demangle_all([n[1:] for n in list(mod.functions) + list(mod.decls)])

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, name=""):
        a = self.next_al
        self.next_al += 1
        st.mem[a] = {}
        st.size[a] = (size, kind, name)
        return a

    def gaddr(self, st, name):
        if name in self.gal:
            a = self.gal[name]
            if a not in st.mem:
                self.init_global(st, name, a)
            return Ptr(a, 0)
        if name in self.mod.functions or name in self.mod.decls:
            return Fn(name)
        a = self.next_al
        self.next_al += 1
        self.gal[name] = a
        self.init_global(st, name, a)
        return Ptr(a, 0)

    def init_global(self, st, name, a):
        g = self.mod.glob(name)
        if g is None:
            raise Unsupported("global " + name)
        try:
            size = self.mod.layout(g["ty"])[0]
        except Unsupported:
            size = 0
        kind = "const" if g["const"] and not g["external"] else "guard" if name.startswith("@_ZGV") else "global"
        st.mem[a] = {}
        st.size[a] = (size, kind, name)
        if name in STREAMS:
            from . import iomodel
            iomodel.vtable(self, st, a, [0])
            iomodel.new_stream(self, st, a, ext=True)
            return
        if g["init"] is not None:
            self.init_store(st, a, 0, g["ty"], g["init"])

    def init_store(self, st, a, off, ty, v):
        ty = self.mod.resolve(ty)
        k = v[0]
        if k == "zero" or (k == "undef"):
            sz = self.mod.layout(ty)[0]
            if k == "zero":
                self.zero_range(st, a, off, sz)
            return
        if k == "agg":
            offs = self.mod.layout(ty)[2]
            for i, (t, x) in enumerate(v[1]):
                if ty.k == "arr":
                    o = off + i * self.mod.layout(t)[0]
                else:
                    o = off + offs[i]
                self.init_store(st, a, o, t, x)
            return
        if k == "cstr":
            st.mem[a][off] = (len(v[1]), v[1])
            return
        val = self.operand(st, {}, ty, v)
        st.mem[a][off] = (self.mod.layout(ty)[0], val)

    def zero_range(self, st, a, off, sz):
        cells = dict(st.mem[a])
        self._clear(cells, off, sz)
        o = off
        while o < off + sz:
            w = 8 if (o % 8 == 0 and o + 8 <= off + sz) else 1
            cells[o] = (w, Zero())
            o += w
        st.mem[a] = cells

    def _clear(self, cells, off, sz):
        for o in [o for o, (s, _) in cells.items() if o < off + sz and off < o + s]:
            s, v = cells[o]
            if o >= off and o + s <= off + sz:
                del cells[o]
            elif isinstance(v, Zero):
                del cells[o]
                for b in range(o, o + s):
                    if not (off <= b < off + sz):
                        cells[b] = (1, Zero())
            else:
                raise Unsupported("partial overwrite")

    def check(self, st, p, sz, write):
        if not isinstance(p, Ptr):
            raise Unsupported("bad pointer " + repr(p))
        if p.al == 0 or p.al not in st.size:
            return "access through null or dangling pointer"
        size, kind, name = st.size[p.al]
        if p.off < 0 or p.off + sz > size:
            return f"out-of-bounds {'write' if write else 'read'} at offset {p.off} of {name} (size {size})"
        if write and kind in ("const", "in"):
            return f"write to read-only object {name}"
        return None

    def store(self, st, p, ty, v):
        """returns list of (state, error)"""
        ty = self.mod.resolve(ty)
        if isinstance(p, PIte):
            return self.split(st, p, lambda s, q: self.store(s, q, ty, v))
        if ty.k in ("struct", "arr", "pstruct"):
            if isinstance(v, Agg):
                offs = self.mod.layout(ty)[2]
                for i, e in enumerate(v.e):
                    et = ty.a[1] if ty.k == "arr" else ty.a[i]
                    o = i * self.mod.layout(et)[0] if ty.k == "arr" else offs[i]
                    r = self.store(st, Ptr(p.al, p.off + o), et, e)
                    if len(r) != 1 or r[0][1]:
                        return r
                    st = r[0][0]
                return [(st, None)]
            raise Unsupported("aggregate store")
        sz = self.mod.layout(ty)[0]
        e = self.check(st, p, sz, True)
        if e:
            return [(st, e)]
        self.global_write(st, p.al, [v])
        cells = dict(st.mem[p.al])
        self._clear(cells, p.off, sz)
        cells[p.off] = (sz, v)
        st.mem[p.al] = cells
        return [(st, None)]

    def global_write(self, st, al, vals):
        size, kind, name = st.size[al]
        if kind not in ("global", "static"):
            return
        if st.ghost.get((0, "init")):
            # first-use initialisation of a static: the same for every call when it does not depend on the arguments
            if all(closed(v) for v in vals):
                st.size[al] = (size, "static", name)
                return
            st.ev = st.ev + (("static initialised from an argument", name),)
        st.ev = st.ev + (("write to global", name),)

    def global_read(self, st, al):
        size, kind, name = st.size[al]
        if kind != "global" or name in STREAMS:
            return
        for f in self.mod.functions:
            if "__cxx_global_var_init" in f and self.mentions(f, name):
                st.ghost[(0, "init")] = st.ghost.get((0, "init"), 0) + 1
                st.size[al] = (size, "static", name)
                outs = self.call(f, [], st)
                if len(outs) != 1 or outs[0].abn or outs[0].st is not st:
                    raise Unsupported("initialisation of " + name)
                st.ghost[(0, "init")] -= 1
                return
        st.ev = st.ev + (("read of mutable global", name),)

    def mentions(self, f, name):
        for b in self.mod.functions[f].blocks.values():
            for ins in b:
                if ("glob", name) == ins.op or name in repr(ins.a):
                    return True
        return False

    def split(self, st, p, f):
        if p.c.id in st.known:
            return f(st, p.x if st.known[p.c.id] else p.y)
        s2 = st.copy()
        st.decide(p.c, True)
        s2.decide(p.c, False)
        return list(f(st, p.x)) + list(f(s2, p.y))

    def load(self, st, p, ty):
        """returns (value, error)"""
        ty = self.mod.resolve(ty)
        if isinstance(p, PIte):
            if p.c.id in st.known:
                return self.load(st, p.x if st.known[p.c.id] else p.y, ty)
            a, ea = self.load(st, p.x, ty)
            b, eb = self.load(st, p.y, ty)
            if ea or eb:
                raise Unsupported("conditional pointer error")
            return self.ite(p.c, a, b), None
        if ty.k in ("struct", "arr", "pstruct"):
            offs = self.mod.layout(ty)[2]
            el = []
            n = ty.a[0] if ty.k == "arr" else len(ty.a)
            for i in range(n):
                et = ty.a[1] if ty.k == "arr" else ty.a[i]
                o = i * self.mod.layout(et)[0] if ty.k == "arr" else offs[i]
                v, e = self.load(st, Ptr(p.al, p.off + o), et)
                if e:
                    return None, e
                el.append(v)
            return Agg(el), None
        sz = self.mod.layout(ty)[0]
        e = self.check(st, p, sz, False)
        if e:
            return None, e
        size, kind, name = st.size[p.al]
        if kind == "opaque":
            raise Unsupported("load from opaque object " + name)
        if kind == "guard":
            return dag.iconst(ty.a, 1 if (p.al, "guard") in st.ghost else 0), None
        self.global_read(st, p.al)
        cells = st.mem[p.al]
        c = cells.get(p.off)
        if c is not None and c[0] == sz:
            return self.conv(c[1], ty), None
        if c is not None and isinstance(c[1], bytes) and p.off + sz <= p.off + c[0] and ty.k == "int":
            return dag.iconst(ty.a, int.from_bytes(c[1][:sz], "little")), None
        if c is not None and c[0] > sz and isinstance(c[1], Zero):
            return self.conv(Zero(), ty), None
        # inside a string constant or a zero run
        ov = [(o, s, v) for o, (s, v) in cells.items() if o < p.off + sz and p.off < o + s]
        if len(ov) == 1 and isinstance(ov[0][2], bytes) and ty.k == "int":
            o, s, v = ov[0]
            return dag.iconst(ty.a, int.from_bytes(v[p.off - o:p.off - o + sz], "little")), None
        if ov and all(isinstance(v, Zero) for _, _, v in ov) and sum(
                min(o + s, p.off + sz) - max(o, p.off) for o, s, _ in ov) == sz:
            return self.conv(Zero(), ty), None
        if not ov:
            if kind == "global":
                raise Unsupported("read of mutable/external global " + name)
            if kind == "static":
                return self.zero(ty), None
            return self.undef(ty), None
        raise Unsupported(f"load granularity {ty} at {p} of {name}")

    def undef(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ("double", "float"):
            return dag.undef("d")
        if ty.k == "int":
            return dag.undef("b") if ty.a == 1 else dag.undef(("i", ty.a))
        if ty.k == "ptr":
            return Ptr(-1, 0)
        if ty.k in ("struct", "pstruct"):
            return Agg([self.undef(t) for t in ty.a])
        if ty.k == "arr":
            return Agg([self.undef(ty.a[1]) for _ in range(ty.a[0])])
        raise Unsupported("undef " + repr(ty))

    def conv(self, v, ty):
        if isinstance(v, Zero):
            return self.zero(ty)
        if isinstance(v, bytes):
            if ty.k == "int":
                return dag.iconst(ty.a, int.from_bytes(v, "little"))
            raise Unsupported("bytes load")
        if ty.k == "double":
            if isinstance(v, N) and v.s == "d":
                return v
            if isinstance(v, N) and v.s == ("i", 64):
                return dag.frombits(v)
        elif ty.k == "float":
            if isinstance(v, N) and v.s == "d":
                return v
        elif ty.k == "int":
            if isinstance(v, N):
                if v.s == ("i", ty.a):
                    return v
                if ty.a == 1 and v.s == "b":
                    return v
                if v.s == "d" and ty.a == 64:
                    return dag.bits(v)
                if v.s == "b":
                    return dag.zextb(ty.a, v)
            if isinstance(v, (Ptr, PInt)) and ty.a == 64:
                return v if isinstance(v, PInt) else PInt(v)
        elif ty.k == "ptr":
            if isinstance(v, (Ptr, PIte, Fn)):
                return v
            if isinstance(v, PInt):
                return v.p
            if isinstance(v, N) and dag.isic(v) and v.a[0] == 0:
                return NULL
        raise Unsupported(f"convert {v} to {ty}")

    def zero(self, ty):
        ty = self.mod.resolve(ty)
        if ty.k in ("double", "float"):
            return const(0.0)
        if ty.k == "int":
            return FALSE if ty.a == 1 else dag.iconst(ty.a, 0)
        if ty.k == "ptr":
            return NULL
        if ty.k in ("struct", "pstruct"):
            return Agg([self.zero(t) for t in ty.a])
        if ty.k == "arr":
            return Agg([self.zero(ty.a[1]) for _ in range(ty.a[0])])
        raise Unsupported("zero " + repr(ty))

    def memcpy(self, st, d, s, n):
        if isinstance(s, PIte):
            return self.split(st, s, lambda a, q: self.memcpy(a, d, q, n))
        if isinstance(d, PIte):
            return self.split(st, d, lambda a, q: self.memcpy(a, q, s, n))
        if n == 0:
            return [(st, None)]
        e = self.check(st, s, n, False) or self.check(st, d, n, True)
        if e:
            return [(st, e)]
        if st.size[s.al][1] == "opaque" or st.size[d.al][1] == "opaque":
            raise Unsupported("memcpy of opaque object")
        self.global_read(st, s.al)
        src = st.mem[s.al]
        new = []
        for o, (w, v) in src.items():
            if o < s.off + n and s.off < o + w:
                if o >= s.off and o + w <= s.off + n:
                    new.append((o - s.off + d.off, w, v))
                elif isinstance(v, bytes):
                    lo, hi = max(o, s.off), min(o + w, s.off + n)
                    new.append((lo - s.off + d.off, hi - lo, v[lo - o:hi - o]))
                elif isinstance(v, Zero):
                    for b in range(max(o, s.off), min(o + w, s.off + n)):
                        new.append((b - s.off + d.off, 1, v))
                else:
                    raise Unsupported("partial memcpy")
        self.global_write(st, d.al, [v for _, _, v in new])
        cells = dict(st.mem[d.al])
        self._clear(cells, d.off, n)
        for o, w, v in new:
            cells[o] = (w, v)
        st.mem[d.al] = cells
        return [(st, None)]

    # ------------------------------------------------------------ merging
    def ite(self, c, a, b):
        if same(a, b):
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, Zero) and isinstance(b, N):
            a = const(0.0) if b.s == "d" else FALSE if b.s == "b" else dag.iconst(b.s[1], 0)
        if isinstance(b, Zero) and isinstance(a, N):
            b = const(0.0) if a.s == "d" else FALSE if a.s == "b" else dag.iconst(a.s[1], 0)
        if isinstance(a, N) and isinstance(b, N):
            if a.s != b.s:
                raise Unsupported("merge of different sorts")
            return ITE(c, a, b)
        if isinstance(a, (Ptr, PIte)) and isinstance(b, (Ptr, PIte)):
            return PIte(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.e) == len(b.e):
            return Agg([self.ite(c, x, y) for x, y in zip(a.e, b.e)])
        if a is None or b is None:
            return None
        raise Unsupported(f"merge {a} / {b}")

    def merge(self, outs, base):
        """merge normal outcomes (same base path length) along the decision tree; unmergeable groups stay separate"""
        if len(outs) <= 1:
            return outs
        try:
            return [self._merge(outs, base)]
        except Unsupported:
            return outs

    def _merge(self, outs, depth):
        if len(outs) == 1:
            return outs[0]
        c = outs[0].st.path[depth][0]
        t = [o for o in outs if o.st.path[depth][1]]
        f = [o for o in outs if not o.st.path[depth][1]]
        for o in outs:
            if o.st.path[depth][0] is not c:
                raise Unsupported("decision tree")
        if not t or not f:
            raise Unsupported("partial tree")   # the other side was abnormal: keep separate
        a = self._merge(t, depth + 1)
        b = self._merge(f, depth + 1)
        sa, sb = a.st, b.st
        if sa.ev != sb.ev or sa.ghost != sb.ghost:
            raise Unsupported("events differ")
        s = State()
        s.path = sa.path[:depth]
        s.known = {k: v for k, v in sa.known.items() if sb.known.get(k) == v}
        s.ev = sa.ev
        s.ghost = sa.ghost
        s.size = {**sb.size, **sa.size}
        for al in set(sa.mem) | set(sb.mem):
            if al not in sa.mem:
                s.mem[al] = sb.mem[al]
                continue
            if al not in sb.mem or sa.mem[al] is sb.mem[al]:
                s.mem[al] = sa.mem[al]
                continue
            ca, cb = sa.mem[al], sb.mem[al]
            cells = {}
            for o in set(ca) | set(cb):
                if o in ca and o in cb:
                    if ca[o][0] != cb[o][0]:
                        raise Unsupported("cell shape")
                    cells[o] = (ca[o][0], self.ite(c, ca[o][1], cb[o][1]))
                else:
                    w, v = ca[o] if o in ca else cb[o]
                    if isinstance(v, N) and v.op != "undef":
                        u = dag.undef(v.s)
                        cells[o] = (w, self.ite(c, v, u) if o in ca else self.ite(c, u, v))
                    # else: leave uninitialised
            s.mem[al] = cells
        return Out(s, self.ite(c, a.ret, b.ret) if a.ret is not None or b.ret is not None else None)

    # ------------------------------------------------------------ operands
    def operand(self, st, env, ty, v):
        k = v[0]
        if k == "reg":
            return env[v[1]]
        if k == "glob":
            return self.gaddr(st, v[1])
        if k == "fp":
            return const(v[1])
        if k == "int":
            if v[2] == 1:
                return TRUE if v[1] & 1 else FALSE
            return dag.iconst(v[2], v[1])
        if k == "null":
            return NULL
        if k == "undef":
            return self.undef(v[1])
        if k == "zero":
            return self.zero(v[1])
        if k == "agg":
            return Agg([self.operand(st, env, t, x) for t, x in v[1]])
        if k == "cgep":
            base = self.operand(st, env, v[2][0][0], v[2][0][1])
            idx = [self.operand(st, env, t, x) for t, x in v[2][1:]]
            return self.gep(base, v[1], idx)
        if k == "ccast":
            x = self.operand(st, env, v[2], v[3])
            if v[1] == "ptrtoint":
                return PInt(x)
            if v[1] == "inttoptr":
                return x.p if isinstance(x, PInt) else NULL
            raise Unsupported("const cast")
        raise Unsupported("operand " + repr(v))

    def gep(self, base, ty, idx):
        if isinstance(base, PIte):
            return PIte(base.c, self.gep(base.x, ty, idx), self.gep(base.y, ty, idx))
        if not isinstance(base, Ptr):
            raise Unsupported("gep base")
        off = base.off
        cur = None
        for i, ix in enumerate(idx):
            if not (isinstance(ix, N) and dag.isic(ix)):
                raise SymIndex(i, ix)
            n = dag.sgn(ix.s[1], ix.a[0])
            if i == 0:
                off += n * self.mod.layout(ty)[0]
                cur = self.mod.resolve(ty)
            elif cur.k in ("struct", "pstruct"):
                off += self.mod.layout(cur)[2][n]
                cur = self.mod.resolve(cur.a[n])
            elif cur.k == "arr":
                off += n * self.mod.layout(cur.a[1])[0]
                cur = self.mod.resolve(cur.a[1])
            else:
                raise Unsupported("gep into " + repr(cur))
        return Ptr(base.al, off)

    # ------------------------------------------------------------ execution
    def call(self, name, args, st, depth=0):
        """execute function; returns list of Out (normal outcomes merged when possible)"""
        if depth > 150:
            raise Unsupported("recursion depth")
        f = self.mod.functions[name]
        f.blocks
        base = len(st.path)
        outs = []
        frame_allocs = []
        env0 = {}
        for (t, r, at), v in zip(f.params, args):
            env0[r] = v
        work = [(f.entry, None, 0, env0, st, {})]
        while work:
            blk, prev, idx, env, s, visits = work.pop()
            if idx == 0:
                visits = dict(visits)
                visits[blk] = visits.get(blk, 0) + 1
                if visits[blk] > MAX_VISITS:
                    raise Unsupported(f"loop in {demangle(name[1:])} is not bounded by a constant")
            code = f.blocks[blk]
            i = idx
            if i == 0:
                # phis read the environment of the predecessor simultaneously
                new = {}
                while i < len(code) and code[i].op == "phi":
                    t, inc = code[i].a
                    for v, lb in inc:
                        if lb == prev:
                            new[code[i].dst] = self.operand(s, env, t, v)
                            break
                    else:
                        raise Unsupported("phi")
                    i += 1
                if new:
                    env = {**env, **new}
            done = False
            while not done:
                ins = code[i]
                self.steps += 1
                if self.steps > MAX_STEPS:
                    raise Unsupported("step limit")
                op = ins.op
                i += 1
                if op == "br":
                    work.append((ins.a[0], blk, 0, env, s, visits))
                    done = True
                elif op == "cbr":
                    c = self.operand(s, env, INT(1), ins.a[0])
                    self.branch(s, env, [(c, ins.a[1]), (NOT(c), ins.a[2])], blk, work, visits)
                    done = True
                elif op == "switch":
                    t, v, d, cases = ins.a
                    x = self.operand(s, env, t, v)
                    if isinstance(x, N) and dag.isic(x):
                        tgt = d
                        for cv, lb in cases:
                            if dag.iconst(x.s[1], cv[1]) is x:
                                tgt = lb
                                break
                        work.append((tgt, blk, 0, env, s, visits))
                    else:
                        rest = s
                        ok = True
                        for cv, lb in cases:
                            c = dag.icmp("eq", x, dag.iconst(x.s[1], cv[1]))
                            if c is TRUE:
                                work.append((lb, blk, 0, env, rest, visits))
                                ok = False
                                break
                            if c is FALSE or rest.known.get(c.id) is False:
                                continue
                            if self.feasible(rest, c):
                                s1 = rest.copy()
                                s1.decide(c, True)
                                work.append((lb, blk, 0, dict(env), s1, visits))
                            rest = rest.copy()
                            rest.decide(c, False)
                        if ok and self.feasible(rest, TRUE):
                            work.append((d, blk, 0, dict(env), rest, visits))
                    done = True
                elif op == "ret":
                    t, v = ins.a
                    outs.append(Out(s, self.operand(s, env, t, v) if v is not None else None))
                    self.npaths += 1
                    if len(outs) > self.max_paths:
                        raise Unsupported("path limit")
                    done = True
                elif op == "unreachable":
                    outs.append(Out(s, None, "reached code the compiler treats as unreachable (undefined behaviour)"))
                    done = True
                elif op in ("call", "invoke"):
                    rs = self.do_call(s, env, ins, depth)
                    nxt = []
                    for o in rs:
                        if o.abn:
                            outs.append(o)
                        else:
                            nxt.append(o)
                    if not nxt:
                        done = True
                    else:
                        tgt = ins.a.get("normal")
                        for o in nxt[1:]:
                            e2 = dict(env)
                            if ins.dst:
                                e2[ins.dst] = o.ret
                            if tgt:
                                work.append((tgt, blk, 0, e2, o.st, visits))
                            else:
                                work.append((blk, prev, i, e2, o.st, visits))
                        s = nxt[0].st
                        if ins.dst:
                            env = dict(env) if len(nxt) > 1 else env
                            env[ins.dst] = nxt[0].ret
                        if tgt:
                            work.append((tgt, blk, 0, env, s, visits))
                            done = True
                elif op == "store":
                    t, v, p = ins.a
                    rs = self.store(s, self.operand(s, env, PTR, p), t, self.operand(s, env, t, v))
                    s, done = self.cont(rs, outs, work, blk, prev, i, env, visits)
                elif op == "load":
                    t, p = ins.a
                    val, e = self.load(s, self.operand(s, env, PTR, p), t)
                    if e:
                        outs.append(Out(s, None, e))
                        done = True
                    else:
                        env[ins.dst] = val
                elif op == "alloca":
                    t, n = ins.a
                    n = self.operand(s, env, INT(64), n)
                    if not dag.isic(n):
                        raise Unsupported("dynamic alloca")
                    a = self.alloc(s, self.mod.layout(t)[0] * n.a[0], "local", f"{demangle(name[1:])}:{ins.dst}")
                    frame_allocs.append(a)
                    env[ins.dst] = Ptr(a, 0)
                elif op == "gep":
                    t, ops = ins.a
                    vals = [self.operand(s, env, tt, vv) for tt, vv in ops]
                    try:
                        env[ins.dst] = self.gep(vals[0], t, vals[1:])
                    except SymIndex as e:
                        rs = self.symgep(s, vals[0], t, vals[1:], e)
                        first = True
                        for s1, pv, err in rs:
                            if err:
                                outs.append(Out(s1, None, err))
                                continue
                            e2 = dict(env)
                            e2[ins.dst] = pv
                            work.append((blk, prev, i, e2, s1, visits))
                        done = True
                else:
                    env[ins.dst] = self.simple(s, env, ins)
                if done:
                    break
        # leave the frame: locals die
        for o in outs:
            for a in frame_allocs:
                o.st.mem.pop(a, None)
                o.st.size.pop(a, None)
                for g in [g for g in o.st.ghost if g[0] == a]:
                    del o.st.ghost[g]
        norm = [o for o in outs if not o.abn]
        abn = [o for o in outs if o.abn]
        return self.merge(norm, base) + abn

    def cont(self, rs, outs, work, blk, prev, i, env, visits):
        good = []
        for s, e in rs:
            if e:
                outs.append(Out(s, None, e))
            else:
                good.append(s)
        if not good:
            return None, True
        for s in good[1:]:
            work.append((blk, prev, i, dict(env), s, visits))
        return good[0], False

    def branch(self, s, env, alts, blk, work, visits):
        c = alts[0][0]
        if c is TRUE or c is FALSE:
            work.append((alts[0][1] if c is TRUE else alts[1][1], blk, 0, env, s, visits))
            return
        base, pol = (c.a[0], False) if c.op == "not" else (c, True)
        k = s.known.get(base.id)
        if k is not None:
            work.append((alts[0][1] if k == pol else alts[1][1], blk, 0, env, s, visits))
            return
        ft = self.feasible(s, base)
        ff = self.feasible(s, NOT(base))
        if ft and ff:
            s2 = s.copy()
            s.decide(base, True)
            s2.decide(base, False)
            work.append((alts[0][1] if pol else alts[1][1], blk, 0, env, s, visits))
            work.append((alts[1][1] if pol else alts[0][1], blk, 0, dict(env), s2, visits))
        elif ft or ff:
            # forced: record as known but not as a decision
            s.known[base.id] = bool(ft)
            work.append((alts[0][1] if (ft and pol) or (ff and not pol) else alts[1][1], blk, 0, env, s, visits))

    def feasible(self, s, c):
        """cheap feasibility: integer conditions by z3, others assumed feasible"""
        ints = [x for x in [c] + [p for p, _ in s.path] if has_int(x)]
        if not has_int(c) and c is not TRUE:
            return True
        if not ints:
            return True
        import z3
        from .bvz3 import tr_bool
        sol = z3.Solver()
        sol.set("timeout", 5000)
        cache = {}
        for p, pol in s.path:
            if has_int(p):
                t = tr_bool(p, cache)
                sol.add(t if pol else z3.Not(t))
        if c is not TRUE:
            sol.add(tr_bool(c, cache))
        return sol.check() != z3.unsat

    def symgep(self, s, base, ty, idx, e):
        """enumerate the in-bounds values of a symbolic index; anything else is an out-of-bounds outcome"""
        if not isinstance(base, Ptr):
            raise Unsupported("symbolic index on conditional pointer")
        size = s.size[base.al][0]
        ix = e.ix
        if not isinstance(ix, N):
            raise Unsupported("symbolic pointer index")
        res = []
        rest = s
        for n in range(0, max(1, min(64, size // 8 + 1))):
            c = dag.icmp("eq", ix, dag.iconst(ix.s[1], n))
            if c is FALSE or not self.feasible(rest, c):
                continue
            s1 = rest.copy()
            s1.decide(c, True)
            i2 = list(idx)
            i2[e.i] = dag.iconst(ix.s[1], n)
            try:
                p = self.gep(base, ty, i2)
            except SymIndex as e2:
                res.extend(self.symgep(s1, base, ty, i2, e2))
                continue
            res.append((s1, p, None))
            rest = rest.copy()
            rest.decide(c, False)
        if self.feasible(rest, TRUE):
            res.append((rest, None, "array index out of bounds"))
        return res

    def simple(self, s, env, ins):
        op = ins.op
        O = lambda t, v: self.operand(s, env, t, v)
        if op == "bin":
            o, t, a, b = ins.a
            x, y = O(t, a), O(t, b)
            t = self.mod.resolve(t)
            if t.k in ("double", "float"):
                return dag.arith(o, x, y, 53 if t.k == "double" else 24)
            if t.k == "int":
                if t.a == 1:
                    if o in ("and", "or", "xor"):
                        return {"and": AND, "or": OR, "xor": dag.XOR}[o](x, y)
                    raise Unsupported("i1 " + o)
                if isinstance(x, PInt) and isinstance(y, PInt) and o == "sub" and isinstance(x.p, Ptr) and isinstance(
                        y.p, Ptr) and x.p.al == y.p.al:
                    return dag.iconst(t.a, x.p.off - y.p.off)
                if not (isinstance(x, N) and isinstance(y, N)):
                    raise Unsupported("pointer arithmetic as integers")
                if x.op == "undef" or y.op == "undef":
                    return dag.undef(("i", t.a))
                return dag.ibin(o, x, y)
            raise Unsupported("bin on " + repr(t))
        if op == "fneg":
            return fneg(O(*ins.a))
        if op == "cast":
            o, t, v, t2 = ins.a
            x = O(t, v)
            if o in ("zext", "sext", "trunc"):
                if isinstance(x, N) and x.s == "b":
                    if o == "zext":
                        return dag.zextb(t2.a, x)
                    if o == "sext":
                        return ITE(x, dag.iconst(t2.a, -1), dag.iconst(t2.a, 0))
                if t2.a == 1:
                    b = dag.as_bool(x)
                    if b is not None:
                        return b
                    if x.op == "undef":
                        return dag.undef("b")
                    return NOT(dag.icmp("eq", dag.ibin("and", x, dag.iconst(x.s[1], 1)), dag.iconst(x.s[1], 0)))
                if x.op == "undef":
                    return dag.undef(("i", t2.a))
                return dag.icast(o, t2.a, x)
            if o == "ptrtoint":
                return PInt(x)
            if o == "inttoptr":
                if isinstance(x, PInt):
                    return x.p
                raise Unsupported("inttoptr")
            if o == "bitcast":
                if t.k == "double" and t2.k == "int":
                    return dag.bits(x)
                if t.k == "int" and t2.k == "double":
                    return dag.frombits(x)
                if t.k == t2.k:
                    return x
                raise Unsupported("bitcast")
            if o == "fptrunc":
                if t.k == "double" and t2.k == "float":
                    return mk("fptrunc", "d", x)
                raise Unsupported("fptrunc")
            if o == "fpext":
                if t.k == "float" and t2.k == "double":
                    return x
                raise Unsupported("fpext to extended precision")
            if o in ("sitofp", "uitofp"):
                w = x.s[1] if x.s != "b" else 1
                if x.s == "b":
                    x = dag.zextb(32, x)
                    w = 32
                if dag.isic(x):
                    n = x.a[0] if o == "uitofp" else dag.sgn(w, x.a[0])
                    if t2.k == "double":
                        return const(float(n))
                if x.op == "zextb" and t2.k in ("double", "float"):
                    return ITE(x.a[0], const(1.0), const(0.0))
                return mk("i2f", "d", o, x)
            raise Unsupported("cast " + o)
        if op == "icmp":
            pred, t, a, b = ins.a
            x, y = O(t, a), O(t, b)
            return self.icmp(pred, x, y)
        if op == "fcmp":
            pred, t, a, b = ins.a
            return dag.fcmp(pred, O(t, a), O(t, b))
        if op == "select":
            t, c, a, b, ct = ins.a
            return self.ite(O(INT(1), c), O(t, a), O(t, b))
        if op == "extractvalue":
            t, v, idx = ins.a
            x = O(t, v)
            for i in idx:
                x = x.e[i]
            return x
        if op == "insertvalue":
            t, v, t2, v2, idx = ins.a

            def put(x, idx, y):
                if not idx:
                    return y
                e = list(x.e)
                e[idx[0]] = put(e[idx[0]], idx[1:], y)
                return Agg(e)
            return put(O(t, v), idx, O(t2, v2))
        if op == "freeze":
            return O(*ins.a)
        raise Unsupported("instruction " + (ins.a if isinstance(ins.a, str) else op))

    def icmp(self, pred, x, y):
        if isinstance(x, PInt):
            x = x.p
        if isinstance(y, PInt):
            y = y.p
        if isinstance(x, PIte):
            return ITE(x.c, self.icmp(pred, x.x, y), self.icmp(pred, x.y, y))
        if isinstance(y, PIte):
            return ITE(y.c, self.icmp(pred, x, y.x), self.icmp(pred, x, y.y))
        if isinstance(x, Fn) or isinstance(y, Fn):
            if pred in ("eq", "ne"):
                return dag.boolc((x == y) == (pred == "eq"))
            raise Unsupported("function pointer compare")
        if isinstance(x, Ptr) and isinstance(y, N) and dag.isic(y) and y.a[0] == 0:
            y = NULL
        if isinstance(y, Ptr) and isinstance(x, N) and dag.isic(x) and x.a[0] == 0:
            x = NULL
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.al == y.al:
                a, b = x.off, y.off
                p = pred if pred in ("eq", "ne") else pred[1:]
                return dag.boolc({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p])
            if pred in ("eq", "ne"):
                return dag.boolc(pred == "ne")
            raise Unsupported("ordering of unrelated pointers")
        if not (isinstance(x, N) and isinstance(y, N)):
            raise Unsupported("icmp operands")
        if x.s == "b":
            if pred == "eq":
                return NOT(dag.XOR(x, y))
            if pred == "ne":
                return dag.XOR(x, y)
        if x.op == "undef" or y.op == "undef":
            return dag.undef("b")
        if x.op == "ite" and dag.isic(y):
            return ITE(x.a[0], self.icmp(pred, x.a[1], y), self.icmp(pred, x.a[2], y))
        return dag.icmp(pred, x, y)

    def do_call(self, s, env, ins, depth):
        a = ins.a
        cal = a["callee"]
        if cal[0] == "reg":
            c = env[cal[1]]
            if not isinstance(c, Fn):
                raise Unsupported("indirect call")
            name = c.name
        else:
            name = cal[1]
        if name.startswith("@llvm.dbg") or name.startswith("@llvm.lifetime") or name.startswith("@llvm.assume") or name.startswith(
                "@llvm.experimental.noalias"):
            return [Out(s, None)]
        args = [self.operand(s, env, t, v) if v[0] != "meta" else None for t, v, at in a["args"]]
        for i, (t, v, at) in enumerate(a["args"]):
            if "byval" in at:
                # a by-value class argument: the callee works on a copy
                src = args[i]
                if not isinstance(src, Ptr):
                    raise Unsupported("byval argument")
                n = self.mod.layout(at["byval"])[0]
                c = self.alloc(s, n, "local", "by-value argument")
                rs = self.memcpy(s, Ptr(c, 0), src, n)
                if len(rs) != 1 or rs[0][1]:
                    raise Unsupported("byval copy")
                s = rs[0][0]
                args[i] = Ptr(c, 0)
        return self.invoke(s, name, args, a, depth)

    def invoke(self, s, name, args, a, depth):
        m = name[1:]
        if m in self.contracts:
            r = self.contracts[m](self, s, args, a)
            if r is not None:
                self.used_contracts.add(m)
                return r
        h = self.lib(m, demangle(m)) if self.lib else None
        if h is not None:
            return h(self, s, args, a)
        if name in self.mod.functions:
            self.inlined.add(m)
            return self.call(name, args, s, depth + 1)
        self.external.add(m)
        raise Unsupported("call of external function " + demangle(m))


class SymIndex(Exception):
    def __init__(self, i, ix):
        self.i, self.ix = i, ix


_hi = {}


def has_int(n):
    r = _hi.get(n.id)
    if r is None:
        r = n.op in ("icmp",) or any(has_int(x) for x in n.a if isinstance(x, N))
        _hi[n.id] = r
    return r
