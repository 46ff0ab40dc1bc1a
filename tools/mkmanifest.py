#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist in checks/ and the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]

# id -> (technique, level, level_note)
T = {}
exec(open(os.path.join(V, "tools", "levels.py")).read(), T)
LEVELS = T["LEVELS"]
NA = T["NOT_APPLICABLE"]

checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in LEVELS:
        tech, level, note = LEVELS[i]
        checks.append(dict(property=i, quick_cmd="./run.sh " + i,
                           thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for it yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the checks intercept file-system effects, clocks and process pools from outside (vp/hooks.py, vp/executor.py).")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "claimed", len(na), "not")
