"""One function per property: which contracts and lemmas decide it."""
import json, os, sys
from . import api, contracts as K, core, fcon as F, harness, iocon as IO, native, spec, values
from .driver import Check
from .harness import BuildError


def P01(ck):
    cs = K.product_family()
    ck.contracts(ck.program(cs), cs)


def P02(ck):
    cs = K.laws()
    p = ck.program(cs)
    ck.contracts(p, cs)


def P03(ck):
    cs, ls = K.add_family(), K.add_laws() + K.one_object("add")
    p = ck.program(cs + ls, extra_wrappers=[api.tid(c.w) for c in cs])
    ck.contracts(p, cs + ls)
    for c in cs:
        ck.typed(p, c, api.union_type(*c.params))


def P04(ck):
    cs, ls = K.sub_family(), K.sub_laws({i for q, i in ck.kf if q == "P04"}) + K.one_object("sub")
    p = ck.program(cs + ls, extra_wrappers=[api.tid(c.w) for c in cs])
    for c in cs:
        ck.contract(p, c, alt=K.subrev(*c.params))
    ck.contracts(p, ls)
    for c in cs:
        ck.typed(p, c, api.union_type(*c.params))


def P05(ck):
    cs = K.invol_family() + K.commuting()
    p = ck.program(cs)
    ck.contracts(p, cs)


def P06(ck):
    cs = K.dual_family() + K.dual_laws()
    p = ck.program(cs)
    ck.contracts(p, cs)


def P07(ck):
    cs = K.mag_family() + K.mag_laws()
    p = ck.program(cs)
    ck.contracts(p, cs)


def P08(ck):
    cs = [f(t) for t in K.ALL[1:] for f in (K.pairmagdir, K.pairmagdir0, K.direction, K.direction0)] + K.magdir_laws()
    p = ck.program(cs)
    ck.contracts(p, cs)


def P09(ck):
    cs = [f(t) for t in K.TYPES for f in (K.ampsq, K.ampprod, K.amplitude, K.amplitude0)]
    p = ck.program(cs)
    ck.contracts(p, cs, standin=300)


def P10(ck):
    cs = [f(t) for t in "SVBTCM" for f in (K.inverse, K.inverse0)] + K.inverse_laws()
    p = ck.program(cs)
    ck.contracts(p, cs, standin=300)


def P11(ck):
    cs = [K.exp_B(), K.exp_P(), K.exp_M()] + K.exp_laws()
    p = ck.program(cs)
    ck.contracts(p, cs, standin=300)


def P12(ck):
    cs = [K.logG2(), K.logG2(True), K.logG2_zero()] + K.log_exp() + K.null_family("logG2", "logG2(a0)", "P")
    p = ck.program(cs)
    ck.contracts(p, cs, standin=300)


def P13(ck):
    cs = [K.sqrtG2(), K.sqrtG2(True), K.sqrtG2_zero()] + K.null_family("sqrtG2", "sqrtG2(a0)", "P")
    p = ck.program(cs)
    ck.contracts(p, cs, standin=300)


def P14(ck):
    cs = F.validity()
    p = ck.program(cs)
    ck.fcontracts(p, cs)


def P15(ck):
    cs = [F.nanprop(c, k) for c in K.nan_family() for k in range(len(c.params)) if not (c.name.endswith("_PB") and c.name[:4] in ("logG", "sqrt") and k == 1)]
    p = ck.program(cs)
    ck.fcontracts(p, cs, F.nverify)


def P16(ck):
    cs = F.comparisons()
    fs = K.near_family() + K.near_ties()
    p = ck.program(cs + fs, extra_wrappers=[c.refw for c in cs if c.other])
    ck.fcontracts(p, cs)
    ck.contracts(p, fs)


def P17(ck):
    cs = F.access()
    p = ck.program(cs)
    ck.fcontracts(p, cs)


def P18(ck):
    cs = IO.outputs()
    p = ck.program(cs, extra_wrappers=[c.n for c in cs])
    ck.fcontracts(p, cs, IO.overify, standin=300)


def P19(ck):
    cs = IO.inputs()
    p = ck.program(cs, extra_wrappers=[c.n for c in cs])
    ck.fcontracts(p, cs, IO.iverify, standin=300)


def P20(ck):
    cs = IO.trips()
    p = ck.program(cs)
    ck.fcontracts(p, cs, IO.tverify, standin=300)


def P21(ck):
    from . import pcon
    cs = pcon.everything()
    ts = pcon.texts()
    tw = {c.c.name: c.c for c in ts}
    p = ck.program(cs, extra_wrappers=[x for c in tw.values() for x in [c.w] + ([c.n] if hasattr(c, "n") else [])], extra_prelude=pcon.PRE)
    p.native = lambda: pcon.build_native(p, cs)
    ck.fcontracts(p, cs, pcon.Verifier())
    ck.fcontracts(p, ts, pcon.tverify)


def P22(ck):
    cs = K.sandwich()
    p = ck.program(cs)
    ck.contracts(p, cs)


def P23(ck):
    from . import tcon
    ts = tcon.tests()
    p = core.Program([], extra_wrappers=tcon.wrappers(), extra_prelude="namespace g3 = engabra::g3;\n" + tcon.EXTRA)
    ck.progs.append(p)
    for n, e, want, what in ts:
        ck.functions.add(what.split("<")[0] if n.startswith("is_") else what.split(" for ")[0])
        if n in p.h.dropped:
            ck.ob(n, "refuted", f"{what} does not compile: {p.h.dropped[n]}", replay={"expression": e, "required": want}, input_found=True)
            continue
        try:
            v = p.execute(n, params="", ret="int").outs[0][1][0]
            got = bool(v.a[0]) if core.dag.isic(v) else None
        except core.Unsupported as x:
            got = None
        if got is None:
            ck.ob(n, "unknown", f"{what} is not a constant")
        else:
            ck.ob(n, "proved" if got == want else "refuted", f"{what} is {str(got).lower()}, {str(want).lower()} is required", "clang type checker",
                  replay={"expression": e, "required": want, "got": got}, input_found=True)
    a = tcon.ast(p.h)
    for c in ["blade"] + [api.T[t][0] for t in api.TYPES]:
        r = a.get(c)
        lib = {"engabra::g3::" + api.T[t][0] for t in api.TYPES}
        ok = r is not None and r["plain"] and not r["partial"] and set(r["spec"]) <= lib
        ck.ob(f"is_{c}_all", "proved" if ok else "unknown", "" if ok else f"is::{c}: types other than those tried are not decided (the primary template is not plainly false, "
              "or it is specialised for other types)", "clang declarations: primary template false, specialised for library types only")


def run(prop, tier, seed):
    ck = Check(prop, tier, seed)
    ck.directives = harness.directives()
    try:
        globals()[prop](ck)
        ck.values()
        for flags, what in harness.variants():
            # the text of the library depends on how it is compiled: verify that text as well
            ck.assume.append("verified again as compiled by: " + what)
            harness.IRFLAGS += flags
            harness.SOFLAGS[:] = flags
            globals()[prop](ck)
            ck.values()
            del harness.IRFLAGS[-len(flags):]
    except BuildError as e:
        print("the harness does not compile against the current tree:\n" + str(e)[-2500:])
        return 2
    return ck.finish()


class Replay(Check):
    """runs the real code on a recorded input instead of verifying"""

    def __init__(self, rec):
        Check.__init__(self, rec["property"], "quick", 1)
        self.rec, self.verdict = rec, None

    def contracts(self, prog, cs, use=None, post=None, standin=0):
        for c in cs:
            self.one(prog, c)

    def contract(self, prog, c, use=None, post=None, standin=0, alt=None):
        self.one(prog, c)

    def fcontracts(self, prog, fcs, verifier=None, standin=0):
        for c in fcs:
            if c.other and c.njudge is None:
                c.njudge = lambda args, got, r=c.other: (None if got == prog.h.run(r, args) else f"returned {got}, the definition gives {not got}")
            self.one(prog, c)

    def typed(self, prog, c, letter):
        pass

    def one(self, prog, c):
        ob = self.rec["obligation"]
        if ob.startswith(c.name + "__") and ob.split("__")[-1] in values.KINDS:
            kind = ob.split("__")[-1]
            t = values.variant(c.w, kind, ob)
            if t is None:
                return
            d = values.contract(c, kind, t)
            new = self.program([d], extra_wrappers=[d.n] if hasattr(d, "n") else [], extra_prelude="#include <utility>\n" + prog.h.extra)
            if hasattr(prog, "native"):
                from . import pcon
                new.native = lambda: pcon.build_native(new, [d])
            return self.one(new, d)
        if c.name != ob:
            return
        if c.name in prog.h.dropped:
            print("does not compile:", prog.h.dropped[c.name][:600])
            self.verdict = 1
            return
        args = [[x if isinstance(x, str) and not _hexf(x) else float.fromhex(x) if isinstance(x, str) else x for x in a] for a in self.rec["inputs_hex"]]
        if hasattr(prog, "native"):
            prog.native()
        # what the code under test writes to standard output may be caught
        say = os.fdopen(os.dup(1), "w")
        print("expression:", c.expr, "on", args, file=say, flush=True)
        got = native.call(prog, c, args)
        print("real code :", got, file=say)
        d = native.judge(c, args, got)
        print("verdict   :", d or "meets the contract", file=say, flush=True)
        self.verdict = 1 if d else 0

    def ob(self, name, status, detail="", backend="", kind="lemma", replay=None, input_found=False):
        if name == self.rec["obligation"]:
            print(name, status, detail)
            self.verdict = 1 if status == "refuted" else 0


def _hexf(x):
    return x in ("nan", "inf", "-inf") or x.lstrip("-").startswith("0x")


def replay(path):
    r = json.load(open(path))
    if "inputs_hex" not in r and "input" not in r:
        print("no failing input was found for", r["obligation"], "\n" + r["why"])
        return run_only(r)
    harness.IRFLAGS += r.get("flags", [])
    harness.SOFLAGS[:] = r.get("flags", [])
    ck = Replay(r)
    globals()[r["property"]](ck)
    for p in ck.progs:
        p.close()
    return 2 if ck.verdict is None else ck.verdict


def run_only(r):
    """the obligation again, on the current tree"""
    print(f"to decide it again: python3-vt check.py {r['property']}")
    return 1
