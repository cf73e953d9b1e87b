#!/usr/bin/env python3
"""seedtable.py: rewrites the table of planted bugs in DESIGN.md (between the seedtable markers) from seeded/*/meta.json;
the column "caught by" comes from the optional key caught_by of meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | breaks | needs | caught by |", "|---|---|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
p = V + "/DESIGN.md"; s = open(p).read()
a, b = "<!-- seedtable -->", "<!-- /seedtable -->"
if a not in s: s = s.replace("SEEDTABLE", a + "\n" + b)
s = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: a + "\n" + "\n".join(rows) + "\n" + b, s, flags=re.S)
open(p, "w").write(s)
