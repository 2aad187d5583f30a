#!/usr/bin/env python3
"""Write MANIFEST.json from vf/registry.py and properties.jsonl."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "vf"))
import registry as R
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in R.CHECKS: continue
    c = R.CHECKS[p]
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p} quick", "thorough_cmd": f"python3 run.py {p} thorough",
                   "evidence_file": f"evidence/{p}.json", "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
na = [{"property": p, "reason": R.NOT_APPLICABLE.get(p, "check not built yet")} for p in ids if p not in R.CHECKS]
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks compile /repo/src with harness code in /verif (sanitizer or -fsanitize=thread instrumentation with our own runtime where noted)."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "unclaimed:", [x["property"] for x in na])
