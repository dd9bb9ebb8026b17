#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/*/check.py (their LEVEL, TECHNIQUE and NOTE)."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
nap = os.path.join(V, "tools", "not_applicable.json")
if os.path.exists(nap):
    NA = json.load(open(nap))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)["id"]
    f = os.path.join(V, "checks", p, "check.py")
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "no check yet: the technique applies, the machinery for it is not built")})
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "TECHNIQUE", "NOTE"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}",
                   "evidence_file": f"evidence/{p}.json", "technique": c["TECHNIQUE"], "level": c.get("LEVEL", "model_checking"), "level_note": c["NOTE"]})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")
