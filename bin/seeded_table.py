#!/usr/bin/env python3
"""Development tool: rewrites the table of planted bugs in DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->\n"
rows = ["| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s | %s |\n" % (i, m["property"] + m.get("note", ""), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
i, j = s.index(a) + len(a), s.index(b)
open(V + "/DESIGN.md", "w").write(s[:i] + "".join(rows) + s[j:])
