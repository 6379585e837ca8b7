#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vlib import registry
ns = {}
exec(open(V + "/checks/props.py").read(), ns)
with open(V + "/properties.jsonl", "w") as f:
    for p in ns["PROPS"]:
        q = dict(p)
        q.pop("check", None)
        f.write(json.dumps(q) + "\n")
man = {"version": 1, "setup_cmd": "python3 checks/setup.py", "checks": [], "not_applicable": []}
for p in ns["PROPS"]:
    c = p.get("check")
    if p["id"] in registry.CHECKS:
        man["checks"].append({"property": p["id"], "quick_cmd": "python3 checks/run.py %s" % p["id"],
                              "thorough_cmd": "python3 checks/run.py %s thorough" % p["id"],
                              "technique": c[0], "level": "model_checking", "level_note": c[1]})
    else:
        man["not_applicable"].append({"property": p["id"], "reason": ns["NOT_APPLICABLE"].get(p["id"], "its check is not built yet")})
man["notes"] = "All specifications are TLA+, checked with TLC. No hooks are needed in /repo. Known findings: known_findings.txt."
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
