#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(os.path.join(here, "seeded", "*"))):
    m = json.load(open(os.path.join(d, "meta.json")))
    script = ".os b/" in open(os.path.join(d, "patch.diff"), errors="replace").read()
    rows.append("| %s | %s%s | %s |" % (os.path.basename(d), m["what_it_breaks"].rstrip(".").replace("|", "\\|"), " (script library)" if script else "", m["property"]))
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
table = "| change | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n"
s = re.sub(r"(?s)<!-- table -->.*<!-- end of table -->", lambda _: "<!-- table -->\n" + table + "<!-- end of table -->", s)
open(p, "w").write(s)
print(len(rows), "planted changes")
