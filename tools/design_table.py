#!/usr/bin/env python3
"""Rewrites the list of planted bugs per property in DESIGN.md from seeded/*/meta.json."""
import json, os, re, collections
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = collections.defaultdict(list)
for d in sorted(os.listdir(f"{root}/seeded")):
    by[json.load(open(f"{root}/seeded/{d}/meta.json"))["property"]].append(d)
rows = ["| check | catches |", "|---|---|"] + [f"| {p} | {', '.join(f'`{d}`' for d in by[p])} |" for p in sorted(by)]
path = f"{root}/DESIGN.md"
s = open(path).read()
a, z = "<!-- planted -->\n", "<!-- /planted -->"
s = re.sub(re.escape(a) + ".*?" + re.escape(z), lambda m: a + "\n".join(rows) + "\n" + z, s, flags=re.S)
open(path, "w").write(s)
