#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (keeps the two in step)."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
na = {i: "check under construction" for i in ids if i not in CHECKS}
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [],
     "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
     "notes": "No hooks in /repo: the explorers reach private stages through the friend declarations the repository's own tests use. Every check rebuilds from /repo/src/OpenMps. See DESIGN.md."}
for i in ids:
    if i in na:
        continue
    c = CHECKS[i]
    m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i,
                        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                        "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": "model_checking",
                        "level_note": c["note"]})
assert set(CHECKS) == {c["property"] for c in m["checks"]}, set(CHECKS) ^ {c["property"] for c in m["checks"]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
