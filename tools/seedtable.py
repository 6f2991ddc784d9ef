#!/usr/bin/env python3
"""Fills DESIGN.md's table of planted bugs between the markers."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property / check that catches it | needs |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json"), key=lambda m: (json.load(open(m))["property"], m)):
    j = json.load(open(m)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"].replace("|", "/")))
p = V + "/DESIGN.md"; t = open(p).read(); block = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->|SEEDTABLE", lambda _: block, t, flags=re.S); open(p, "w").write(t)
