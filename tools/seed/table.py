#!/usr/bin/env python3
"""table.py: rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|")))
p = root + "/DESIGN.md"; s = open(p).read()
head, tail = s.split("<!-- seeds -->", 1); _, tail = tail.split("<!-- /seeds -->", 1)
open(p, "w").write(head + "<!-- seeds -->\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->" + tail)
