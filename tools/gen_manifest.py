#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (claimed checks) and properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(root, "tools", "claims.py")).read())   # CLAIMS = {id: (technique, note)}, NA = {id: reason}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        t, n = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not yet claimed: its check is still being built")))
m = dict(version=1, setup_cmd="./build.sh", checks=checks, not_applicable=na)
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
