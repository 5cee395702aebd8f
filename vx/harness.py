"""Compiles the wrappers against /repo's current headers: to LLVM IR for the verifier, to a shared object for replay."""
import ctypes, os, re, subprocess, tempfile, hashlib, shutil
from . import api, ir

REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = shutil.which("clang++-18") or shutil.which("clang++")
IRFLAGS = ["-O0", "-std=c++17", "-ffp-contract=off", "-fno-discard-value-names", "-D_GLIBCXX_ASSERTIONS", "-S", "-emit-llvm", "-w",
           "-ferror-limit=0", f"-I{REPO}/include"]


SOFLAGS = []


def library_text(cmd):
    """what the preprocessor leaves of the library's headers"""
    r = subprocess.run(cmd + ["-std=c++17", "-E", "-x", "c++", f"-I{REPO}/include", "-"], input="#include <Engabra>\n", capture_output=True, text=True)
    out, cur = [], ""
    for ln in r.stdout.split("\n"):
        if ln.startswith("# "):
            cur = ln.split('"')[1] if '"' in ln else ""
        elif cur.startswith(REPO + "/") and ln.strip():
            out.append(" ".join(ln.split()))
    return " ".join(out) if r.returncode == 0 else None


GNU = ["-U__clang__", "-U__clang_major__", "-U__clang_minor__", "-U__clang_patchlevel__", "-U__clang_version__"]


def variants():
    """the settings (asserts off, optimiser on, GNU compiler) under which the library's text differs from the text verified by
    default: [(flags, name)]; on a tree without such conditions the list is empty"""
    base = library_text([CLANG, "-O0"])
    opt = ["-DNDEBUG", "-D__OPTIMIZE__=1"]
    out, seen = [], {base, None}
    gcc = library_text(["g++", "-O2", "-DNDEBUG"])
    for fl, nm in ((opt, "optimised build"), (opt + GNU, "optimised build with the GNU compiler")):
        t = library_text([CLANG, "-O0"] + fl)
        if t not in seen and (fl[-1] not in GNU or gcc not in seen):
            seen.add(t)
            out.append((fl, nm))
    return out


def directives():
    """instructions to the compiler in the library's text that change what the text means (they act on one compiler only)"""
    t = library_text(["g++", "-O2"]) or ""
    out = [m.group(0).strip() for m in re.finditer(r"#\s*pragma\b(?!\s*(once|region|endregion|message|mark)\b)(?!\s*(GCC|clang)\s+(diagnostic|poison|system_header|warning|error)\b)"
                                                   r"(\s+\w+){0,3}", t)]
    out += [m.group(0) for m in re.finditer(r"\b(optimize|target|optnone|__asm__|asm)\s*\(", t) if "attribute" in t[max(0, m.start() - 60):m.start()] or "asm" in m.group(0)]
    return out


class Harness:
    def __init__(self, wrappers, extra_prelude="", keep=None):
        self.ws = {}
        for w in wrappers:
            if w.name not in self.ws:
                self.ws[w.name] = w
        self.extra = extra_prelude
        self.dropped = {}
        self.dir = tempfile.mkdtemp(prefix="vx_")
        self._so = None
        self.mod = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def source(self):
        lines = (api.PRELUDE + self.extra).split("\n")
        self.line_of = {}
        for w in self.ws.values():
            if w.name in self.dropped:
                continue
            lines.append(api.emit(w))
            self.line_of[len(lines)] = w.name
        return "\n".join(lines) + "\n"

    def build(self):
        src = os.path.join(self.dir, "h.cpp")
        out = os.path.join(self.dir, "h.ll")
        for _ in range(12):
            open(src, "w").write(self.source())
            r = subprocess.run([CLANG] + IRFLAGS + [src, "-o", out], capture_output=True, text=True)
            if r.returncode == 0:
                self.mod = ir.Module(open(out).read())
                return self
            bad = {}
            for ln in r.stderr.split("\n"):
                m = re.match(re.escape(src) + r":(\d+):\d+: (error|note|fatal error): (.*)", ln)
                if m and int(m.group(1)) in self.line_of:
                    bad.setdefault(self.line_of[int(m.group(1))], m.group(3))
            if not bad:
                raise BuildError(r.stderr[-4000:])
            self.errlog = r.stderr[:4000]
            self.dropped.update(bad)
        raise BuildError("wrappers keep failing to compile")

    def so(self, cxx="g++", opt="-O1"):
        if self._so is None:
            src = os.path.join(self.dir, "h.cpp")
            out = os.path.join(self.dir, "h.so")
            r = subprocess.run([cxx, "-std=c++17", opt, "-w", "-D_GLIBCXX_ASSERTIONS", "-ffp-contract=off", "-shared", "-fPIC", f"-I{REPO}/include", *[f for f in SOFLAGS if not f.startswith(("-U", "-D__"))],
                                src, "-o", out], capture_output=True, text=True)
            if r.returncode != 0:
                raise BuildError(r.stderr[-3000:])
            self._so = ctypes.CDLL(out)
        return self._so

    def run(self, name, args, extra=(), nout=8):
        """call the compiled wrapper: args = lists of floats"""
        f = getattr(self.so(), name)
        w = self.ws[name]
        bufs = [(ctypes.c_double * max(1, len(a)))(*a) for a in args]
        ex = [ctypes.c_size_t(e) for e in extra]
        if w.ret == "bool":
            f.restype = ctypes.c_bool
            return bool(f(*bufs, *ex))
        if w.ret == "int":
            f.restype = ctypes.c_int
            return int(f(*bufs, *ex))
        n = 16 if w.ret == "md" else nout
        o = (ctypes.c_double * n)(*([12345.678] * n))
        f.restype = None
        f(*bufs, *ex, o)
        return list(o)


class BuildError(Exception):
    pass
