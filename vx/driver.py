"""Runs the obligations of one property, decides the verdict, writes evidence and replay files."""
import json, math, os, signal, sys, time, traceback
from . import core, dag, fdom, harness, native, rdom
from .core import Ob, Program

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUSTED = [
    "clang 18 front end (C++17 to LLVM IR at -O0, -ffp-contract=off) and the IR semantics implemented in vx/ir.py, vx/symex.py",
    "the normal form for exact real terms in vx/poly.py and z3 4.x (QF_NRA, QF_FP, QF_BV)",
    "the specification algebra of vx/spec.py (Clifford algebra generated from e_i e_i = 1, e_i e_j = -e_j e_i)",
    "standard model of IEEE-754 rounding; libm functions sqrt, sin, cos, exp, log, atan2, hypot, csqrt, cexp, ccosh, csinh taken as "
    "their real-valued namesakes (assumed contracts)",
]


def known_findings():
    """lines 'known: property=P04 id=sub_BS ...' of the committed file"""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith("known:"):
                d = dict(x.split("=", 1) for x in ln[6:].split() if "=" in x)
                txt = ln.split(" what=", 1)[1].strip() if " what=" in ln else ""
                out[(d.get("property"), d.get("id"))] = txt
    return out


def standin_slow(c):
    return not (getattr(c, "poly", False) or getattr(c, "relative", False))


class TimeLimit(BaseException):
    pass


def limited(seconds, f, *a, **k):
    """f(*a, **k), or TimeLimit after so many seconds"""
    def on(sig, frame):
        raise TimeLimit()
    old = signal.signal(signal.SIGALRM, on)
    signal.setitimer(signal.ITIMER_REAL, seconds, 5)
    try:
        return f(*a, **k)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = []
        self.t0 = time.time()
        self.viol = []
        self.more = []
        self.known = []
        self.undis = []
        self.bounded = []
        self.replayed = []
        self.assume = []
        self.functions = set()
        self.progs = []
        self.kf = known_findings()
        self.searched = self.deep = 0.0
        self.directives = []
        self.todo = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def late(self):
        """no time left for looking for inputs"""
        return time.time() - self.t0 > (4 * 3600 if self.thorough else 740)

    def program(self, contracts, **k):
        p = Program(contracts, **k)
        self.progs.append(p)
        return p

    # ------------------------------------------------------------ contracts
    def bounded_time(self, name, f, *a, **k):
        """the answer of a verifier, or 'unknown' when its time runs out"""
        left = (4 * 3600 if self.thorough else 560) - (time.time() - self.t0)
        # once an obligation has failed with an input the others need not be decided at any cost
        each = 1800 if self.thorough else 20 if any(v[3] for v in self.viol) else 150
        if left < 5:
            return Ob(name, "unknown", "not attempted: the time of this check is used up")
        try:
            return limited(min(left, each), f, *a, **k)
        except TimeLimit:
            return Ob(name, "unknown", "time limit")
        except Exception as e:
            return Ob(name, "unknown", f"the verifier gave up: {type(e).__name__}: {e} at {traceback.format_exc().strip().splitlines()[-3].strip()}")

    def contracts(self, prog, cs, use=None, post=None, standin=0):
        """verify contracts; in dependency order callee contracts that hold are used at call sites"""
        for c in cs:
            self.contract(prog, c, use, post, standin)

    def contract(self, prog, c, use=None, post=None, standin=0, alt=None):
        self.todo.append((prog, c, None, dict(post=post, standin=standin, alt=alt)))
        u = use(c) if callable(use) else (use or ())
        o = self.bounded_time(c.name, core.verify, prog, c, u, seed=self.seed, post=post)
        o, more = (o[0], o[1:]) if isinstance(o, list) else (o, [])
        self.functions.add(c.what + " [" + ",".join(core.T[t][0] for t in c.params) + "]")
        self.judge(prog, c, o, alt)
        acc = False
        for a in more:
            self.obs.append(a)
            acc = a.status == "proved"
            if not acc:
                self.undis.append(f"{a.name}: {a.detail}")
                standin = -1
        if self.thorough:
            standin = standin or 20000
        if standin and o.status == "proved":
            self.standin(prog, c, standin, acc)
        return o.status == "proved"

    def fcontracts(self, prog, fcs, verifier=None, standin=0):
        from . import fcon
        for fc in fcs:
            self.todo.append((prog, fc, verifier or fcon.fverify, dict(standin=standin)))
            self.functions.add(fc.what + " [" + ",".join(core.T[t][0] for t in fc.params) + "]")
            o = self.bounded_time(fc.name, verifier or fcon.fverify, prog, fc)
            o = o[0] if isinstance(o, list) else o
            if fc.other and fc.njudge is None:
                fc.njudge = lambda args, got, r=fc.other: (None if got == prog.h.run(r, args) else
                                                           f"returned {got} for {args}, the definition gives {not got}")
            self.judge(prog, fc, o)
            if standin and o.status == "proved":
                self.standin(prog, fc, standin)

    def values(self):
        """the same contracts for operands that are not constant objects"""
        from . import pcon, values
        todo, self.todo = self.todo, []
        byprog = {}
        for t in todo:
            if t[1].params and t[1].name not in t[0].h.dropped:
                byprog.setdefault(id(t[0]), []).append(t)
        for ts in byprog.values():
            prog = ts[0][0]
            info = {}
            for _, c, ver, k in ts:
                info.setdefault(c.w.name, []).append((c, ver, k))
            diff, n, drop = values.compare([t[1] for t in ts], prog.h.extra)
            for i in range(n):
                self.obs.append(Ob("operand kinds", "proved", "", "overload resolution chooses the functions already under contract (clang)"))
            if not diff:
                continue
            nat = hasattr(prog, "native")
            cs = []
            for c, kind, text in diff:
                for c1, ver, k in info[c.w.name]:
                    d = values.contract(c1, kind, text)
                    if k.get("alt") is not None:
                        k = dict(k, alt=None)
                        if (self.prop, c1.name) in self.kf:
                            continue
                    if kind in ("int", "long", "float"):
                        d.gen = values.whole(c1)
                        ver = "search"
                    cs.append((d, ver, k))
            new = self.program([d for d, _, _ in cs], extra_wrappers=[d.n for d, _, _ in cs if hasattr(d, "n")] + [d.refw for d, _, _ in cs if getattr(d, "other", None)],
                               extra_prelude="#include <utility>\n" + prog.h.extra)
            if nat:
                new.native = lambda: pcon.build_native(new, [d for d, _, _ in cs if hasattr(d, "nw")])
            for d, ver, k in cs:
                if ver == "search":
                    # other functions are chosen for other number types: no contract, only runs
                    if self.deep < 150 and not self.late():
                        t = time.time()
                        a, w, got, n = native.search(new, d, self.seed, budget=3, trials=300)
                        self.deep += time.time() - t
                        self.bounded.append(f"{d.name}: {n} inputs")
                        if a is not None:
                            self.violation(new, d, "bounded check: " + w, a, got)
                elif ver is None:
                    self.contract(new, d, **k)
                else:
                    self.fcontracts(new, [d], ver, **{a: b for a, b in k.items() if a == "standin"})
            self.todo = []

    def typed(self, prog, c, letter):
        """the result type of the operation is the documented one"""
        n = "t_" + c.name
        want = core.api.TID[letter]
        if c.name in prog.h.dropped or n in prog.h.dropped:
            return
        try:
            v = prog.execute(n, params="", ret="int").outs[0][1][0]
            got = v.a[0] if dag.isic(v) else None
        except core.Unsupported as e:
            got = None
        if got == want:
            self.ob(n, "proved", f"result type {core.T[letter][0]}", "clang type checker")
        elif got is None:
            self.ob(n, "unknown", "result type not decided")
        else:
            names = {i: core.T[k][0] for k, i in core.api.TID.items()}
            self.ob(n, "refuted", f"result type is {names.get(got, 'not a library type')}, the contract requires {core.T[letter][0]}",
                    replay={"expression": c.expr, "operands": [core.T[t][0] for t in c.params]}, input_found=True)

    def standin(self, prog, c, trials, acc=False):
        res = None
        try:
            res = prog.execute(c.name)
        except Exception:
            pass
        if self.late():
            return
        budget = (20 if standin_slow(c) else 5) if self.thorough else 6
        if trials < 0:
            # the verifier left the accuracy open: look for a failing input in earnest
            trials, budget = (20000, 15) if self.deep < 150 else (300, 6)
        t = time.time()
        a, d, got, n = native.search(prog, c, self.seed, consts=native.dag_consts(res), budget=budget, trials=20000 if self.thorough else trials, res=res)
        self.deep += time.time() - t if budget == 15 else 0
        if acc or not trials or any(getattr(c, k, None) for k in ("poly", "relative", "special", "notvalid", "zero_ops")):
            self.replayed.append(f"{c.name}: {n} inputs")
        else:
            self.bounded.append(f"{c.name}: {'actual text' if hasattr(c, 'ncall') else 'rounding accuracy'} on {n} inputs")
        if a is not None:
            self.violation(prog, c, f"bounded check: {d}", a, got)

    def judge(self, prog, c, o, alt=None):
        if o.status == "proved" and self.directives:
            o.status, o.detail = "unknown", f"the library's text holds instructions to one compiler ({self.directives[0]})"
        self.obs.append(o)
        if o.status == "proved":
            return
        if o.status == "missing":
            self.violation(prog, c, o.detail, None, None, kind="compile")
            return
        if alt is not None and (self.prop, getattr(c, "kname", c.name)) in self.kf:
            o2 = core.verify(prog, alt, (), seed=self.seed)[0]
            if o2.status == "proved":
                kn = getattr(c, "kname", c.name)
                self.known += [(kn, self.kf[(self.prop, kn)])] if kn not in dict(self.known) else []
                o.status = "known"
                return
        res = None
        try:
            res = limited(30, prog.execute, c.name, ivars=[dag.ivar(64, c.extra)] if getattr(c, "extra", "") else (), impure=True)
        except (Exception, TimeLimit):
            pass
        a = d = got = None
        n = 0
        found = sum(1 for v in self.viol if v[3])
        if found < 6 and (self.searched < 200 or not found) and self.searched < 500 and not self.late():
            t = time.time()
            a, d, got, n = native.search(prog, c, self.seed, hints=[o.cex], consts=native.dag_consts(res), budget=12 if self.searched < 60 else 4, res=res)
            self.searched += time.time() - t
        if a is not None:
            self.violation(prog, c, o.detail + "; " + d, a, got)
        elif o.status == "refuted":
            if found:
                self.more.append(f"{o.name}: {o.detail}")       # reported with the violations that come with an input
            else:
                self.violation(prog, c, o.detail, None, None)
        else:
            self.undis.append(f"{o.name}: {o.detail}")
            self.bounded.append(f"{c.name}: not discharged; no failing input among {n} tried")

    # ------------------------------------------------------------ free-form obligations
    def ob(self, name, status, detail="", backend="", kind="lemma", replay=None, input_found=False):
        """record an obligation decided elsewhere; status proved / refuted / unknown"""
        o = Ob(name, status, detail, backend, kind=kind)
        self.obs.append(o)
        if status == "refuted":
            self.violation(None, None, f"{name}: {detail}", replay, None, name=name, found=input_found)
        elif status != "proved":
            self.undis.append(f"{name}: {detail}")
        return status == "proved"

    def violation(self, prog, c, why, args, got, kind="", name=None, found=None):
        name = name or c.name
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{name}.json".replace("/", "_").replace(" ", "_"))
        rec = {"property": self.prop, "obligation": name, "why": why}
        if harness.SOFLAGS:
            rec["flags"] = list(harness.SOFLAGS)
        if c is not None:
            rec["expression"] = c.expr
            rec["operands"] = [core.T[t][0] for t in c.params]
        if isinstance(args, (list, tuple)) and c is not None:
            rec["inputs"] = args
            rec["inputs_hex"] = [[x if isinstance(x, str) else float(x).hex() for x in a] for a in args]
            rec["got"] = [repr(x) for x in got] if isinstance(got, list) else repr(got)
            rec["replay_cmd"] = f"cd {ROOT} && python3-vt check.py --replay {p}"
        elif args is not None:
            rec["input"] = args
        json.dump(rec, open(p, "w"), indent=1, default=repr)
        f = (args is not None) if found is None else found
        self.viol.append((name, why, p, f))

    # ------------------------------------------------------------ end
    def finish(self):
        proved = [o for o in self.obs if o.status == "proved"]
        rc = 0
        if not self.obs:
            print(f"internal: no obligations for {self.prop}")
            rc = 2
        backends = {}
        for o in proved:
            backends[o.backend] = backends.get(o.backend, 0) + 1
        sq, stime = rdom.STATS.q + fdom.STATS.q, rdom.STATS.t + fdom.STATS.t
        inl = set()
        for p in self.progs:
            inl |= {m for m in p.stats["inlined"] if "engabra" in m}
        cov = {
            "obligations": len(self.obs), "discharged": len(proved),
            "checker_cmd": f"cd /verif && VERIF_SEED={self.seed} python3-vt check.py {self.prop} --tier {self.tier}",
            "trusted_base": TRUSTED,
            "functions_under_contract": sorted(self.functions),
            "library_functions_executed_symbolically": len(inl),
            "by_back_end": backends,
            "solver_queries": sq, "solver_seconds": round(stime, 2),
            "undischarged": self.undis, "bounded_standins_not_counted_as_proved": self.bounded,
            "proved_and_replayed_natively": self.replayed,
            "known_findings": [k for k, _ in self.known],
            "failed_without_search": self.more,
            "failed": [{"obligation": n, "why": w, "replay": p} for n, w, p, _ in self.viol],
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "proof", "coverage": cov,
              "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w"), indent=1)
        for p in self.progs:
            p.close()
        print(f"{self.prop}: {len(proved)} of {len(self.obs)} obligations discharged, {len(self.functions)} functions under contract, "
              f"{sq} solver queries ({stime:.1f} s), {time.time() - self.t0:.1f} s")
        for u in self.undis[:20]:
            print("  undischarged:", u[:300])
        for k, txt in self.known:
            print(f"KNOWN-FINDING: property={self.prop} {k} {txt}")
        for n, w, p, f in self.viol[:12]:
            print(f"  failed obligation {n}: {w[:400]}")
        if self.more:
            print(f"  {len(self.more)} further failed obligations, e.g. {self.more[0][:200]}")
        if any(v[3] for v in self.viol):
            self.viol.sort(key=lambda v: not v[3])
        for n, w, p, f in self.viol[:12]:
            print(f"VIOLATION property={self.prop} replay={p}" + ("" if f else " no-failing-input-found"))
            rc = 1
        return rc
