#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md, between its two markers."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
rows = ["| Bug (caught by the check named in its id) | Needs |", "|---|---|"]
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, "meta.json")))
    assert i.startswith(m["property"]), i
    rows.append("| %s | %s |" % (i, m["needs"].replace("|", "/").replace("\n", " ")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
if a not in s:
    s = s.replace("@TABLE@\n", a + b + "\n")
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
