#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from work/catch.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(V + "/work/catch.json"))
AFTER = json.load(open(V + "/tools/strengthened.json"))
rows = ["| change | property | needs | quick check of the property |", "|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    r = res.get(i)
    said = "not run" if not r else ("caught, %d s" % r["s"] if r["caught"] else "missed")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], said + ("; first missed, then added: " + AFTER[i] if i in AFTER else "")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- catches -->.*<!-- /catches -->", lambda _: "<!-- catches -->\n" + "\n".join(rows) + "\n<!-- /catches -->", s, flags=re.S)
open(p, "w").write(s)
