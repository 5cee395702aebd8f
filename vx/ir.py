"""Parser for the subset of textual LLVM IR that clang -O0 emits for the harness translation units.

Only the shape of the language is known here; semantics live in symex.py.  Anything not understood raises
Unsupported, which callers turn into "outside the verifier's reach" (never into a violation).
"""
import re, struct


class Unsupported(Exception):
    """The verifier cannot handle this construct (tool limit, not a verdict)."""


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "a")

    def __init__(self, k, a=None):
        self.k = k
        self.a = a

    def __repr__(self):
        return f"{self.k}:{self.a}" if self.a is not None else self.k


VOID = Ty("void")
DOUBLE = Ty("double")
FLOAT = Ty("float")
PTR = Ty("ptr")
X86FP80 = Ty("x86_fp80")
_INTS = {}


def INT(n):
    if n not in _INTS:
        _INTS[n] = Ty("int", n)
    return _INTS[n]


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
 | (?P<gid>@(?:"[^"]*"|[-\w$.]+))
 | (?P<lid>%(?:"[^"]*"|[-\w$.]+))
 | (?P<comdat>\$(?:"[^"]*"|[-\w$.]+))
 | (?P<meta>![-\w.]*)
 | (?P<attr>\#\d+)
 | (?P<num>-?0x[KHMLR]?[0-9A-Fa-f]+|[-+]?\d+\.\d*(?:[eE][-+]?\d+)?|-?\d+)
 | (?P<word>[A-Za-z_.][-\w.$]*)
 | (?P<p>\.\.\.|[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("token: " + s[i:i + 60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
        if out[-1] == ("p", ";"):
            break
    return out


def unq(name):
    # keep sigil; drop the quotes
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


PARAM_ATTRS = {
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "writeonly", "readnone", "signext", "zeroext", "inreg",
    "returned", "immarg", "dead_on_unwind", "writable", "nofree", "nest", "swiftself", "swifterror", "allocptr",
    "allocalign"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null", "sret", "byval", "byref", "inalloca",
                   "elementtype", "preallocated", "initializes", "range", "nofpclass", "captures"}
FASTMATH = {"fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn"}


class P:
    """Token cursor."""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ("eof", "")

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def accept(self, v):
        if self.peek()[1] == v and self.peek()[0] != "str":
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported(f"expected {v!r} got {x!r} in {' '.join(y for _, y in self.t)[:200]}")

    # -- types
    def type(self):
        k, v = self.next()
        if k == "word":
            if v == "ptr":
                ty = PTR
                if self.peek()[1] == "addrspace":
                    raise Unsupported("addrspace")
            elif re.fullmatch(r"i\d+", v):
                ty = INT(int(v[1:]))
            elif v == "double":
                ty = DOUBLE
            elif v == "float":
                ty = FLOAT
            elif v == "void":
                ty = VOID
            elif v in ("x86_fp80", "fp128", "half", "bfloat", "metadata", "label", "token", "opaque"):
                ty = Ty(v)
            else:
                raise Unsupported("type " + v)
        elif k == "lid":
            ty = Ty("named", unq(v))
        elif v == "[":
            n = int(self.next()[1])
            self.expect("x")
            e = self.type()
            self.expect("]")
            ty = Ty("arr", (n, e))
        elif v == "{":
            el = []
            if not self.accept("}"):
                while True:
                    el.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            ty = Ty("struct", tuple(el))
        elif v == "<":
            if self.peek()[1] == "{":
                self.next()
                el = []
                if not self.accept("}"):
                    while True:
                        el.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                ty = Ty("pstruct", tuple(el))
            else:
                n = int(self.next()[1])
                self.expect("x")
                e = self.type()
                self.expect(">")
                ty = Ty("vec", (n, e))
        else:
            raise Unsupported("type token " + repr((k, v)))
        # function type "ret (args)" as used in varargs calls
        if self.peek()[1] == "(" and k != "p" and ty.k != "label":
            # lookahead: a function type only appears before a callee @name / %name
            depth = 0
            j = self.i
            while j < len(self.t):
                if self.t[j][1] == "(" and self.t[j][0] == "p":
                    depth += 1
                elif self.t[j][1] == ")" and self.t[j][0] == "p":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            nxt = self.t[j + 1] if j + 1 < len(self.t) else ("eof", "")
            if nxt[0] in ("gid", "lid"):
                self.i = j + 1
        return ty

    def skip_parens(self):
        self.expect("(")
        d = 1
        while d:
            k, v = self.next()
            if k == "eof":
                raise Unsupported("eof in parens")
            if k == "p" and v == "(":
                d += 1
            elif k == "p" and v == ")":
                d -= 1

    def attrs(self):
        """Skip parameter/return attributes; return dict of those with meaning."""
        res = {}
        while True:
            k, v = self.peek()
            if k != "word":
                break
            if v in PARAM_ATTRS:
                self.next()
            elif v in PARAM_ATTRS_ARG:
                self.next()
                if v == "align" and self.peek()[0] == "num":
                    self.next()
                elif v in ("sret", "byval") and self.peek()[1] == "(":
                    self.next()
                    res[v] = self.type()
                    self.expect(")")
                elif self.peek()[1] == "(":
                    self.skip_parens()
            else:
                break
        return res

    # -- constants / operands
    def value(self, ty):
        k, v = self.next()
        if k == "lid":
            return ("reg", unq(v))
        if k == "gid":
            return ("glob", unq(v))
        if k == "num":
            if ty.k in ("double", "float"):
                return ("fp", parse_fp(v, ty))
            if ty.k == "int":
                return ("int", int(v), ty.a)
            raise Unsupported("number of type " + repr(ty))
        if k == "word":
            if v == "true":
                return ("int", 1, 1)
            if v == "false":
                return ("int", 0, 1)
            if v == "null":
                return ("null",)
            if v in ("undef", "poison"):
                return ("undef", ty)
            if v == "zeroinitializer":
                return ("zero", ty)
            if v == "getelementptr":
                self.accept("inbounds")
                self.expect("(")
                bt = self.type()
                self.expect(",")
                ops = []
                while True:
                    t = self.type()
                    ops.append((t, self.value(t)))
                    if self.accept(")"):
                        break
                    self.expect(",")
                return ("cgep", bt, ops)
            if v in ("ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sext"):
                self.expect("(")
                t = self.type()
                x = self.value(t)
                self.expect("to")
                t2 = self.type()
                self.expect(")")
                return ("ccast", v, t, x, t2)
            raise Unsupported("constant " + v)
        if v in ("{", "["):
            close = {"{": "}", "[": "]"}[v]
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("agg", el)
        if v == "<":
            pk = self.accept("{")
            el = []
            close = "}" if pk else ">"
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            if pk:
                self.expect(">")
            return ("agg", el)
        if k == "str" and v.startswith("c"):
            body = v[2:-1]
            out = bytearray()
            j = 0
            while j < len(body):
                if body[j] == "\\":
                    out.append(int(body[j + 1:j + 3], 16))
                    j += 3
                else:
                    out.append(ord(body[j]))
                    j += 1
            return ("cstr", bytes(out))
        raise Unsupported("value " + repr((k, v)))

    def tyval(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def parse_fp(v, ty):
    if v.startswith("0x"):
        if v[2] in "KHMLR":
            raise Unsupported("fp constant " + v)
        return struct.unpack(">d", int(v[2:], 16).to_bytes(8, "big"))[0]
    return float(v)


# ---------------------------------------------------------------- instructions
class Ins:
    __slots__ = ("op", "dst", "a")

    def __init__(self, op, dst, a):
        self.op = op
        self.dst = dst
        self.a = a

    def __repr__(self):
        return f"{self.dst} = {self.op} {self.a}"


BIN = {"fadd", "fsub", "fmul", "fdiv", "frem", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor",
       "shl", "lshr", "ashr"}
CAST = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "fptrunc", "fpext", "sitofp", "uitofp", "fptosi",
        "fptoui", "addrspacecast"}


def parse_call(p, invoke=False):
    while p.peek()[1] in FASTMATH:
        p.next()
    while p.peek()[1] in ("fastcc", "coldcc", "ccc", "cc"):
        p.next()
    p.attrs()
    ret = p.type()
    k, v = p.next()
    if k not in ("gid", "lid"):
        raise Unsupported("callee " + v)
    callee = ("glob", unq(v)) if k == "gid" else ("reg", unq(v))
    p.expect("(")
    args = []
    if not p.accept(")"):
        while True:
            t = p.type()
            if t.k == "metadata":
                # skip metadata operand
                d = 0
                while not (d == 0 and p.peek()[1] in (",", ")")):
                    kk, vv = p.next()
                    if vv == "(":
                        d += 1
                    elif vv == ")":
                        d -= 1
                args.append((t, ("meta",), {}))
            else:
                at = p.attrs()
                args.append((t, p.value(t), at))
            if p.accept(")"):
                break
            p.expect(",")
    r = dict(ret=ret, callee=callee, args=args)
    if invoke:
        while p.peek()[1] != "to":
            if p.next()[0] == "eof":
                raise Unsupported("invoke tail")
        p.expect("to")
        p.expect("label")
        r["normal"] = unq(p.next()[1])[1:]
        p.expect("unwind")
        p.expect("label")
        r["unwind"] = unq(p.next()[1])[1:]
    return r


def parse_ins(line, mod):
    toks = tokenize(line)
    p = P(toks, mod)
    dst = None
    if p.peek()[0] == "lid" and p.peek(1)[1] == "=":
        dst = unq(p.next()[1])
        p.next()
    k, op = p.next()
    if op in ("tail", "musttail", "notail"):
        k, op = p.next()
    if op in BIN:
        while p.peek()[1] in FASTMATH or p.peek()[1] in ("nuw", "nsw", "exact", "disjoint"):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Ins("bin", dst, (op, t, a, b))
    if op == "fneg":
        while p.peek()[1] in FASTMATH:
            p.next()
        t = p.type()
        return Ins("fneg", dst, (t, p.value(t)))
    if op in CAST:
        while p.peek()[1] in ("nneg", "nuw", "nsw"):
            p.next()
        t = p.type()
        a = p.value(t)
        p.expect("to")
        return Ins("cast", dst, (op, t, a, p.type()))
    if op == "alloca":
        p.accept("inalloca")
        t = p.type()
        n = ("int", 1, 64)
        if p.accept(",") and p.peek()[1] not in ("align", "addrspace"):
            nt = p.type()
            n = p.value(nt)
        return Ins("alloca", dst, (t, n))
    if op == "load":
        if p.peek()[1] in ("atomic",):
            p.next()
        p.accept("volatile")
        t = p.type()
        p.expect(",")
        pt, v = p.tyval()
        return Ins("load", dst, (t, v))
    if op == "store":
        if p.peek()[1] in ("atomic",):
            p.next()
        p.accept("volatile")
        t = p.type()
        v = p.value(t)
        p.expect(",")
        pt, ptr = p.tyval()
        return Ins("store", None, (t, v, ptr))
    if op == "getelementptr":
        while p.peek()[1] in ("inbounds", "nuw", "nusw"):
            p.next()
        t = p.type()
        ops = []
        while p.accept(","):
            if p.peek()[0] == "meta":
                break
            tt = p.type()
            ops.append((tt, p.value(tt)))
        return Ins("gep", dst, (t, ops))
    if op == "call":
        return Ins("call", dst, parse_call(p))
    if op == "invoke":
        return Ins("invoke", dst, parse_call(p, True))
    if op == "ret":
        t = p.type()
        if t.k == "void":
            return Ins("ret", None, (t, None))
        return Ins("ret", None, (t, p.value(t)))
    if op == "br":
        if p.accept("label"):
            return Ins("br", None, (unq(p.next()[1])[1:],))
        t = p.type()
        c = p.value(t)
        p.expect(",")
        p.expect("label")
        a = unq(p.next()[1])[1:]
        p.expect(",")
        p.expect("label")
        b = unq(p.next()[1])[1:]
        return Ins("cbr", None, (c, a, b))
    if op == "switch":
        t = p.type()
        v = p.value(t)
        p.expect(",")
        p.expect("label")
        d = unq(p.next()[1])[1:]
        p.expect("[")
        cases = []
        while not p.accept("]"):
            ct = p.type()
            cv = p.value(ct)
            p.expect(",")
            p.expect("label")
            cases.append((cv, unq(p.next()[1])[1:]))
        return Ins("switch", None, (t, v, d, cases))
    if op == "phi":
        while p.peek()[1] in FASTMATH:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.expect("[")
            v = p.value(t)
            p.expect(",")
            lb = unq(p.next()[1])[1:]
            p.expect("]")
            inc.append((v, lb))
            if not p.accept(","):
                break
            if p.peek()[0] == "meta":
                break
        return Ins("phi", dst, (t, inc))
    if op == "select":
        while p.peek()[1] in FASTMATH:
            p.next()
        ct, c = p.tyval()
        p.expect(",")
        t, a = p.tyval()
        p.expect(",")
        t2, b = p.tyval()
        return Ins("select", dst, (t, c, a, b, ct))
    if op in ("icmp", "fcmp"):
        while p.peek()[1] in FASTMATH or p.peek()[1] == "samesign":
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.expect(",")
        b = p.value(t)
        return Ins(op, dst, (pred, t, a, b))
    if op == "extractvalue":
        t, v = p.tyval()
        idx = []
        while p.accept(","):
            if p.peek()[0] == "meta":
                break
            idx.append(int(p.next()[1]))
        return Ins("extractvalue", dst, (t, v, idx))
    if op == "insertvalue":
        t, v = p.tyval()
        p.expect(",")
        t2, v2 = p.tyval()
        idx = []
        while p.accept(","):
            if p.peek()[0] == "meta":
                break
            idx.append(int(p.next()[1]))
        return Ins("insertvalue", dst, (t, v, t2, v2, idx))
    if op == "freeze":
        t, v = p.tyval()
        return Ins("freeze", dst, (t, v))
    if op in ("unreachable", "landingpad", "resume", "fence", "cleanup", "catch", "filter"):
        return Ins(op, dst, None)
    return Ins("unsupported", dst, line)


class Function:
    def __init__(self, name, ret, params, lines, mod):
        self.name = name
        self.ret = ret
        self.params = params      # list of (Ty, regname, attrs)
        self.lines = lines
        self.mod = mod
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        bl = {}
        cur = None
        order = []
        buf = None
        first = True
        for ln in self.lines:
            s = strip_comment(ln)
            if not s.strip():
                continue
            m = re.match(r'^("(?:[^"]*)"|[-\w$.]+):', s)
            if m:
                cur = m.group(1).strip('"')
                bl[cur] = []
                order.append(cur)
                first = False
                continue
            if first:
                cur = self.entry_label()
                bl[cur] = []
                order.append(cur)
                first = False
            s = s.strip()
            if buf is not None:
                buf += " " + s
                if buf.startswith("switch") and "]" in s or (re.search(r"(invoke|landingpad)", buf) is not None):
                    pass
            # multi-line instructions: switch [...], invoke ... \n to label, landingpad \n clause
            bl[cur].append(s)
        self._blocks = {}
        for b in order:
            self._blocks[b] = self._join(bl[b])
        self.entry = order[0]

    def entry_label(self):
        return str(len(self.params))

    def _join(self, ls):
        out = []
        i = 0
        while i < len(ls):
            s = ls[i]
            if re.match(r"^(%\S+ = )?invoke ", s) or re.match(r'^(%"[^"]*" = )?invoke ', s):
                while " unwind label " not in s:
                    i += 1
                    s += " " + ls[i]
            elif s.startswith("switch "):
                while "]" not in s[s.index("["):]:
                    i += 1
                    s += " " + ls[i]
            elif " = landingpad " in s:
                while i + 1 < len(ls) and re.match(r"^(cleanup|catch|filter)\b", ls[i + 1]):
                    i += 1
                out.append(Ins("landingpad", None, None))
                i += 1
                continue
            i += 1
            s = re.sub(r",\s*!(srcloc|tbaa|llvm\.loop|prof|range|noundef|heapallocsite|nosanitize|dbg|invariant\.load|nonnull|align|loop)\s*!\d+", "", s)
            s = re.sub(r"\s+#\d+(?=\s|$|,)", " ", s)
            try:
                out.append(parse_ins(s, self.mod))
            except Unsupported as e:
                out.append(Ins("unsupported", None, s + "   /* " + str(e) + " */"))
        return out


def strip_comment(ln):
    if ";" not in ln:
        return ln
    # a ';' outside quotes starts a comment
    q = False
    for i, c in enumerate(ln):
        if c == '"':
            q = not q
        elif c == ";" and not q:
            return ln[:i]
    return ln


class Module:
    def __init__(self, text):
        self.functions = {}
        self.decls = {}
        self.globals = {}      # name -> dict(ty, init, const, external)
        self.types = {}
        self._gl = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._define(ln, lines[i + 1:j])
                i = j + 1
                continue
            if ln.startswith("declare "):
                self._declare(ln)
            elif ln.startswith("%") and " = type " in ln:
                nm, rest = ln.split(" = type ", 1)
                self.types[unq(nm)] = rest
            elif ln.startswith("@"):
                self._global(ln)
            i += 1
        self._tcache = {}
        self._lcache = {}

    def _head(self, ln):
        toks = tokenize(strip_comment(ln))
        p = P(toks, self)
        p.next()
        while p.peek()[0] == "word" and not re.fullmatch(r"i\d+|ptr|double|float|void|x86_fp80|fp128", p.peek()[1]):
            w = p.peek()[1]
            if w in PARAM_ATTRS or w in PARAM_ATTRS_ARG:
                p.attrs()
            else:
                p.next()
                if p.peek()[1] == "(":
                    p.skip_parens()
        ret = p.type()
        name = unq(p.next()[1])
        p.expect("(")
        params = []
        n = 0
        if not p.accept(")"):
            while True:
                if p.accept("..."):
                    params.append((Ty("vararg"), None, {}))
                    p.expect(")")
                    break
                t = p.type()
                at = p.attrs()
                reg = None
                if p.peek()[0] == "lid":
                    reg = unq(p.next()[1])
                else:
                    reg = "%" + str(n)
                n += 1
                params.append((t, reg, at))
                if p.accept(")"):
                    break
                p.expect(",")
        return name, ret, params

    def _define(self, ln, body):
        try:
            name, ret, params = self._head(ln)
        except Unsupported:
            return
        self.functions[name] = Function(name, ret, params, body, self)

    def _declare(self, ln):
        try:
            name, ret, params = self._head(ln)
        except Unsupported:
            return
        self.decls[name] = (ret, params)

    def _global(self, ln):
        m = re.match(r'^(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', ln)
        if not m:
            return
        self._gl[unq(m.group(1))] = m.group(2)

    def glob(self, name):
        if name in self.globals:
            return self.globals[name]
        if name not in self._gl:
            return None
        rest = strip_comment(self._gl[name])
        p = P(tokenize(rest), self)
        ext = False
        const = False
        alias = False
        while True:
            k, v = p.peek()
            if k == "word" and v in ("private", "internal", "external", "linkonce_odr", "weak_odr", "dso_local", "unnamed_addr",
                                     "local_unnamed_addr", "constant", "global", "hidden", "thread_local", "linkonce", "weak",
                                     "common", "available_externally", "appending", "protected", "extern_weak"):
                if v == "external":
                    ext = True
                if v == "constant":
                    const = True
                p.next()
                if v in ("constant", "global"):
                    break
                if v == "thread_local" and p.peek()[1] == "(":
                    p.skip_parens()
            else:
                alias = True
                break
        if alias:
            raise Unsupported("global " + name + " " + rest[:60])
        ty = p.type()
        init = None
        if not ext and p.peek()[1] not in (",", ""):
            init = p.value(ty)
        g = dict(ty=ty, init=init, const=const, external=ext)
        self.globals[name] = g
        return g

    # -- layout
    def resolve(self, ty):
        if ty.k != "named":
            return ty
        if ty.a in self._tcache:
            return self._tcache[ty.a]
        if ty.a not in self.types:
            raise Unsupported("type " + ty.a)
        p = P(tokenize(self.types[ty.a]), self)
        t = p.type()
        self._tcache[ty.a] = t
        return t

    def layout(self, ty):
        """(size, align, [field offsets])"""
        ty = self.resolve(ty)
        if ty.k == "double" or ty.k == "ptr":
            return 8, 8, None
        if ty.k == "float":
            return 4, 4, None
        if ty.k == "x86_fp80":
            return 16, 16, None
        if ty.k == "int":
            b = (ty.a + 7) // 8
            s = 1
            while s < b:
                s *= 2
            return s, min(s, 16), None
        if ty.k == "arr":
            s, a, _ = self.layout(ty.a[1])
            return s * ty.a[0], a, None
        if ty.k in ("struct", "pstruct"):
            key = id(ty)
            off = 0
            al = 1
            offs = []
            for e in ty.a:
                s, a, _ = self.layout(e)
                if ty.k == "pstruct":
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, offs
        if ty.k == "vec":
            s, a, _ = self.layout(ty.a[1])
            return s * ty.a[0], s * ty.a[0], None
        raise Unsupported("layout of " + repr(ty))
