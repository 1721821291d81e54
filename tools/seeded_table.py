#!/usr/bin/env python3
"""Puts the table of planted bugs into DESIGN.md. catches.json (written when the bugs were run) has {id: [checks]}."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = json.load(open(os.path.join(V, "tools", "catches.json")))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], ", ".join(c.get(d, [])) or "-"))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
t = re.sub(r"(?s)<!-- seeded -->.*<!-- /seeded -->", lambda _: "<!-- seeded -->\n" + "\n".join(rows) + "\n<!-- /seeded -->", t)
open(p, "w").write(t)
print(len(rows) - 2, "planted bugs")
