#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from lib/vf/registry.py and properties.jsonl."""
import json, os, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(root, "lib"))
from vf import registry
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = registry.CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": registry.NOT_APPLICABLE.get(p["id"], "check not built yet")})
        continue
    checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']}",
                   "thorough_cmd": f"VERIF_TIER=thorough bin/check {p['id']}",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": c["technique"], "level": "model_checking", "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in spec/, checked with TLC; drivers in harness/ run the code of /repo's working tree; no hooks are needed in /repo."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
