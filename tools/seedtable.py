#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md between the SEEDTABLE markers (documentation only; no check uses it)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
extra = json.load(open(os.path.join(V, "tools", "also.json"))) if os.path.exists(os.path.join(V, "tools", "also.json")) else {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), extra.get(i, m["property"])))
p = V + "/DESIGN.md"; s = open(p).read()
t = "<!-- SEEDTABLE -->\n" + "\n".join(rows) + "\n<!-- /SEEDTABLE -->"
s = re.sub(r"<!-- SEEDTABLE -->.*?<!-- /SEEDTABLE -->", lambda m: t, s, flags=re.S) if "<!-- SEEDTABLE -->" in s else s.replace("SEEDTABLE", t, 1)
open(p, "w").write(s)
