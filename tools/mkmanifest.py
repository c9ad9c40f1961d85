#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and vp/registry.py (every property without a registered check goes to not_applicable)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "vp"))
import registry
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append({"property": i, "quick_cmd": "python3 vp/run.py %s quick" % i, "thorough_cmd": "python3 vp/run.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": c["technique"], "level": c.get("level", "exploration"), "level_note": c["note"]})
    else:
        na.append({"property": i, "reason": registry.NOT_APPLICABLE.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 vp/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Each check compiles its harness together with the needed sources of /repo's working tree (ninja, into /verif/.build) and runs 8 shards. See DESIGN.md."}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(H, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not applicable")
