#!/usr/bin/env python3
"""Writes the table of planted bugs (from seeded/*/meta.json) into section 7 of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(d))
    cell = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), cell(m["needs"]), cell(m["what_it_breaks"])))
rows.sort()
text = "| caught by | bug | needs | breaks |\n|---|---|---|---|\n" + "".join("| %s | %s | %s | %s |\n" % r for r in rows)
p = V + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- bugs -->\n", "<!-- end of bugs -->\n"
s = s[:s.index(a) + len(a)] + text + s[s.index(b):]
open(p, "w").write(s)
