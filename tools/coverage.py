"""Write COVERAGE.md from the contract modules and the evidence of the last runs."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import pydv  # noqa: E402,F401

out = ["# Coverage", "", "Generated by `tools/coverage.py` from the contract modules and, for the "
       "numbers, from the evidence files of the last run on the unchanged tree.  *Contracts* are "
       "discharged obligation by obligation for all inputs; *used* are contracts of callees, each "
       "itself discharged under the property named in its module.", ""]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("contracts." + p["id"].lower())
    ev = os.path.join(HERE, "evidence", p["id"] + ".json")
    fs = {}
    if os.path.exists(ev):
        cov = json.load(open(ev))["coverage"]
        fs = {f["contract"]: f for f in cov.get("functions", [])}
    out += [f"## {p['id']} {p['title']}", "", "| contract | obligations | by |", "|---|---|---|"]
    for c in m.CONTRACTS:
        f = fs.get(c.name)
        n = f"{f['discharged']}/{f['obligations']}" if f else ""
        out.append(f"| `{c.target.split(':')[1]}`" + (
            f" ({c.name})" if c.name != c.target.split(":")[1] else "") +
            f" | {n} | {f['by'] if f else ''} |")
    used = sorted({c.target.split(":")[1] for c in getattr(m, "ALL", []) if c.modular and not any(
        c is d for d in m.CONTRACTS)})
    out.append("")
    if used:
        out += ["Used: " + ", ".join(f"`{u}`" for u in used) + ".", ""]
    for nm in ("ASSUMPTIONS", "TRUSTED"):
        xs = getattr(m, nm, [])
        if xs:
            out += [nm.capitalize() + ":", ""] + [f"* {x}" for x in xs] + [""]
open(os.path.join(HERE, "COVERAGE.md"), "w").write("\n".join(out))
