#!/usr/bin/env python3
"""seed.py ID [--check P..]   confirm a planted bug in a scratch copy: applies, builds, passes the stable tests, demo 0 / nonzero, checks' answers"""
import json, os, subprocess, sys, shutil
SC = "/tmp/seed_sc"
S = "/verif/seeded"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def build():
    r = sh(f"cmake -S {SC} -B {SC}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DBUILD_TESTING=ON -DCMAKE_CXX_FLAGS=-Wno-error "
           f"-DCMAKE_DISABLE_FIND_PACKAGE_Doxygen=ON >/dev/null && ninja -C {SC}/_build", env={**os.environ, "CXX": "/usr/bin/g++", "CC": "/usr/bin/gcc"})
    if r.returncode:
        return "build fails\n" + r.stdout[-1500:]
    r = sh(f"ctest --test-dir {SC}/_build -j8 --timeout 300 --output-junit {SC}/_build/j.xml")
    import xml.etree.ElementTree as ET
    bad = [t.get("name") for t in ET.parse(f"{SC}/_build/j.xml").getroot().iter("testcase") if t.get("status") not in ("run", "passed")]
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = str(base)
    bad = [b for b in bad if b in stable]
    return "fails tests " + ",".join(bad) if bad else ""


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-") and not (a.startswith("P") and a[1:].isdigit())]
    chk = [a for a in sys.argv[1:] if a.startswith("P") and a[1:].isdigit()]
    if not ids:
        ids = sorted(os.listdir(S))
    if not os.path.exists(SC):
        shutil.copytree("/repo", SC, ignore=shutil.ignore_patterns("_build"))
    for i in ids:
        d = f"{S}/{i}"
        sh(f"rsync -a --delete --exclude _build --exclude .git /repo/ {SC}/ || (git -C {SC} checkout -q -- . )")
        sh(f"git -C {SC} checkout -q -- .")
        meta = json.load(open(f"{d}/meta.json"))
        out = []
        if "--fast" not in sys.argv:
            r = sh(f"bash {d}/demo.sh", cwd=SC)
            out.append("demo0 ok" if r.returncode == 0 else f"DEMO FAILS UNPATCHED rc={r.returncode} {r.stdout[-300:]} {r.stderr[-500:]}")
        r = sh(f"git -C {SC} apply {d}/patch.diff")
        if r.returncode:
            print(i, "PATCH DOES NOT APPLY", r.stderr[:300])
            continue
        if "--fast" not in sys.argv:
            b = build()
            out.append("build+tests ok" if not b else "BUILD: " + b)
            r = sh(f"bash {d}/demo.sh", cwd=SC)
            out.append("demo1 ok" if r.returncode else "DEMO PASSES PATCHED")
        for p in chk or [meta["property"]]:
            r = sh(f"python3-vt check.py {p} --tier quick", cwd="/verif", env={**os.environ, "VERIF_REPO": SC, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
            f = [x.strip() for x in r.stdout.split("\n") if "failed obligation" in x]
            out.append(f"{p}: rc={r.returncode} {len(v)} violations{' (no input)' if v and all('no-failing' in x for x in v) else ''} {f[0][:150] if f else r.stdout[-200:] if r.returncode else 'MISSED ' + r.stdout[-300:]}")
        sh(f"git -C {SC} checkout -q -- .")
        print(i, "|", "\n    ".join(out), flush=True)


main()
