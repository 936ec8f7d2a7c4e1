"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- planted bugs -->\n"
rows = []
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append((m["property"], d, " ".join(m["needs"].split())))
rows.sort()
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split(MARK)[0]
t = "".join(f"| {c} | {d} | {n} |\n" for c, d, n in rows)
open(p, "w").write(s + MARK + "| caught by | bug | needs |\n|---|---|---|\n" + t)
