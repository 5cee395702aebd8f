#!/usr/bin/env python3
"""fills tools/DESIGN.in (table of properties, planted bugs, counts) and writes DESIGN.md"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(R, "tools")
notes = json.load(open(R + "/notes.json"))
rows = []
for l in open(R + "/properties.jsonl"):
    d = json.loads(l)
    n = notes[d["id"]]
    rows.append(f"| {d['id']} {d['title']} | {n['note']} | {n.get('domain', '')} | {n.get('bounded', '-')} |")
s = open(T + "/DESIGN.in").read().replace("@@TABLE@@", "\n".join(rows))
by = {}
for i in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{i}/meta.json"))
    by.setdefault(m["property"], []).append(i)
s = s.replace("@@SEEDS@@", f"  {sum(map(len, by.values()))} of them, every one reported by the check of its property, with a failing input where not marked *: " +
              "; ".join(f"{p}: {', '.join(v)}" for p, v in sorted(by.items())) + ".")
s = s.replace("@@NREF@@", str(len(set(re.findall(r'^rf\("([^"]+)"', open(T + "/refactors.py").read(), re.M)))))
for k in ("MUT", "ACC", "THOROUGH"):
    p = f"{T}/{k}.txt"
    s = s.replace(f"@@{k}@@", open(p).read().strip() if os.path.exists(p) else "")
open(R + "/DESIGN.md", "w").write(s)
