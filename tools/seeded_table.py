#!/usr/bin/env python3
""" rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json """
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
by = {}
for d in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{d}/meta.json"))
    by.setdefault(m["property"], []).append(d)
lines = [f"* {p}: " + ", ".join(by[p]) for p in sorted(by)]
n = sum(map(len, by.values()))
text = (f"<!-- planted -->\n{n} changes, each one caught by the quick check of the property it is listed under (what each one "
        f"does is in its `meta.json`):\n\n" + "\n".join(lines) + "\n<!-- /planted -->")
s = open(f"{V}/DESIGN.md").read()
s = re.sub(r"<!-- planted -->.*?<!-- /planted -->", lambda m: text, s, flags=re.S)
open(f"{V}/DESIGN.md", "w").write(s)
