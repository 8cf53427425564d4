#!/usr/bin/python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/catalog.py and lib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
from catalog import CATALOG
from props import PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for c in CATALOG:
        f.write(json.dumps(c["prop"]) + "\n")
checks, na = [], []
for c in CATALOG:
    i = c["prop"]["id"]
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="./check " + i, thorough_cmd="VERIF_TIER=thorough ./check " + i,
                           technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        na.append(dict(property=i, reason=c.get("na", "check not built yet")))
m = dict(version=1, setup_cmd="./check --setup", checks=checks, not_applicable=na,
         notes="Property-based testing and fuzzing only; see DESIGN.md. No hooks in /repo: only public interfaces are driven.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
