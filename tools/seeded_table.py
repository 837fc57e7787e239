#!/usr/bin/env python3
"""Rewrites the planted-bug table at the end of DESIGN.md from seeded/*/meta.json and tools/caught.txt (id caught|missed)."""
import json, os, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = dict(l.split()[:2] for l in open(root + "/tools/caught.txt") if l.strip())
d = open(root + "/DESIGN.md").read()
head = d[:d.index("## 8. Planted bugs")]
rows = ["## 8. Planted bugs", "", "`/verif/seeded/<id>`; each builds, passes the stable tests and has a demonstration. \"caught\" is by the quick check of the",
        "property named in its `meta.json`, on a copy of the tree with the patch applied.", "", "| id | property | needs | result |", "|---|---|---|---|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = f.split("/")[-2]; m = json.load(open(f))
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {res.get(i, 'not run')} |".replace("\n", " "))
open(root + "/DESIGN.md", "w").write(head + "\n".join(rows) + "\n")
