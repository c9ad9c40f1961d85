#!/usr/bin/env python3
"""addfix.py <property> <commit> <what failed>: record a repaired defect in known_findings.json"""
import json, os, subprocess, sys
p, c, w = sys.argv[1:]
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
k = json.load(open(f))
full = subprocess.check_output(["git", "-C", "/repo", "rev-parse", "--short=10", c], text=True).strip()
n = sum(x["property"] == p for x in k["findings"])
k["findings"].append(dict(property=p, id="fixed-%s%s" % (p, "" if n == 0 else "-%d" % (n + 1)), status="fixed", commit=full, what=w,
                          line="fixed: property=%s %s %s" % (p, full, w)))
json.dump(k, open(f, "w"), indent=1)
