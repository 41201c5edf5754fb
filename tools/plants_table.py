#!/opt/venv/bin/python
"""Developer tool: rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/"), m["property"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, b = "<!-- plants -->\n", "<!-- end of plants -->\n"
i, j = s.index(a) + len(a), s.index(b)
s = s[:i] + "| change | needs | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(len(rows), "planted changes")
