"""Regenerates MANIFEST.json from the list of claimed properties."""
import json, os
R = os.path.dirname(os.path.abspath(__file__))
TECH = "contract-based deductive verification: symbolic execution of the real code's LLVM IR, obligations discharged by exact real-term normalisation and z3"
NOTE = json.load(open(os.path.join(R, "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
checks = []
na = []
for p in props:
    if p in NOTE:
        n = NOTE[p]
        checks.append({"property": p, "quick_cmd": f"python3-vt check.py {p} --tier quick",
                       "thorough_cmd": f"python3-vt check.py {p} --tier thorough",
                       "technique": n.get("technique", TECH), "level": "proof", "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt setup_check.py", "checks": checks, "not_applicable": na},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
