#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md (between the lines <!--seeds--> and <!--/seeds-->) from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | caught by | what it needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"<!--seeds-->.*<!--/seeds-->", lambda _: "<!--seeds-->\n" + "\n".join(rows) + "\n<!--/seeds-->", s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
