#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; properties without a check function are not_applicable."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
T = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh",
         hooks=dict(guard="none", enable="no hook was needed: concurrency is controlled by compiling /repo's sources against a replacement std (harness/vstd)", source_commits=[]),
         checks=[], not_applicable=[])
for p in props:
    if hasattr(checks, p) and p in T:
        tech, note = T[p]
        m["checks"].append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p,
                                thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                                technique=tech, level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=p, reason="check not built yet"))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
