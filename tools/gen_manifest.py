#!/usr/bin/env python3
"""MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 run.py %s quick" % i, thorough_cmd="python3 run.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique=c.get("technique", "property-based testing: generated operation histories on a simulated MPI against a reference model, with shrinking"),
                           level="exploration",
                           level_note=c.get("note", "random search; non-trivial cases: " + c["rule"])))
    else:
        na.append(dict(property=i, reason="no check built for it in this framework yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
