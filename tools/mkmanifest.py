#!/usr/bin/env python3
"""writes MANIFEST.json from the table below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES.get(p["id"])
    if n is None or "na" in n:
        na.append({"property": p["id"], "reason": (n or {}).get("na", "check not built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                   "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": n.get("technique", "contract-based deductive verification: sidecar "
                   "contracts on the real functions, obligations discharged by z3/cvc5"),
                   "level": n.get("level", "proof"), "level_note": n["note"]})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
     "notes": "see DESIGN.md; known findings and repaired defects in known_findings.txt"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
