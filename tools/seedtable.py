#!/usr/bin/env python3
"""Rewrite the table of seeded changes between the SEEDS markers of DESIGN.md (development aid; no check uses it)."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    d = json.load(open(m)); c = lambda s: str(s).replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], c(d["what_it_breaks"]), c(d["needs"])))
p = R + "/DESIGN.md"; s = open(p).read()
t = "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->"
s = s.replace("@SEEDS@", t) if "@SEEDS@" in s else re.sub(r"<!-- SEEDS -->.*?<!-- /SEEDS -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
