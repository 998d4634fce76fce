#!/usr/bin/env python3
"""Fills the planted-bug table of DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs | breaks |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    rows.append("| %s | %s | %s | %s |" % (i, j.get("caught_by", j["property"]), j["needs"], j["what_it_breaks"]))
t = open(V + "/DESIGN.md").read()
body = "<!-- table -->\n" + "\n".join(rows) + "\n<!-- /table -->"
if "@@TABLE@@" in t: t = t.replace("@@TABLE@@", body)
else: t = re.sub(r"<!-- table -->.*<!-- /table -->", lambda _: body, t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
