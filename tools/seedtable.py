#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (between the two marker comments)."""
import json, glob, os, re
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = ["| planted bug | caught by | needs | what it breaks |", "|---|---|---|---|"]
miss = {l.split(" ", 1)[0]: l.split(" ", 1)[1].strip() for l in open(R + "/tools/missed.txt")} if os.path.exists(R + "/tools/missed.txt") else {}
for m in sorted(glob.glob(R + "/seeded/*/meta.json")):
    i = m.split("/")[-2]; d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (i, miss.get(i, d["property"]), d["needs"].replace("|", "/"), d["what_it_breaks"].replace("|", "/")))
p = R + "/DESIGN.md"; s = open(p).read()
new = "<!-- planted -->\n" + "\n".join(rows) + "\n<!-- /planted -->"
s = s.replace("SEEDTABLE", new) if "SEEDTABLE" in s else re.sub(r"<!-- planted -->.*<!-- /planted -->", lambda _: new, s, flags=re.S)
open(p, "w").write(s)
print(len(rows) - 2)
