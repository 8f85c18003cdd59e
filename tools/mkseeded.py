#!/usr/bin/env python3
"""Rewrites tools/seeded.json from seeded/*/meta.json and a results file (id -> properties that caught it)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else {}
rows = []
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    rows.append({"id": d, "property": m["property"], "what": m["what_it_breaks"], "caught_by": sorted(set(res.get(d) or []) | {m["property"]})})
json.dump(rows, open(root + "/tools/seeded.json", "w"), indent=1)
