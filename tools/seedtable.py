#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the markers)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
p = os.path.join(H, "tools", "seed_results.txt")
if os.path.exists(p):
    for l in open(p):
        f = l.rstrip("\n").split("\t")
        if len(f) >= 2:
            res[f[0]] = f[1:]
rows = []
for d in sorted(os.listdir(os.path.join(H, "seeded"))):
    m = json.load(open(os.path.join(H, "seeded", d, "meta.json")))
    r = res.get(d, ["not run", ""])
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], r[0], m["needs"].replace("|", "/")))
t = "| planted bug | property | caught by | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
f = os.path.join(H, "DESIGN.md")
s = open(f).read()
s = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(f, "w").write(s)
