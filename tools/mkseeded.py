#!/usr/bin/env python3
"""Rewrites the table of seeded changes in DESIGN.md (between the markers) from
seeded/*/meta.json; which check catches a change is recorded in tools/caught.txt
(lines "id PROPERTY caught|missed note")."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
p = H + "/tools/caught.txt"
for l in open(p) if os.path.exists(p) else []:
    if l.strip():
        a = l.strip().split(None, 2)
        c[a[0]] = " ".join(a[1:])
rows = []
for d in sorted(glob.glob(H + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    rows.append((m["property"], i, m["needs"], c.get(i, "not yet run")))
rows.sort()
t = "| property | change | needs | checks |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
D = H + "/DESIGN.md"
s = open(D).read()
s = re.sub(r"(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + t + m.group(2), s, flags=re.S)
open(D, "w").write(s)
