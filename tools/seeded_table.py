"""Writes the table of planted bugs (from seeded/*/meta.json) into DESIGN.md between its markers. Development only."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, B = "<!-- seeded -->", "<!-- /seeded -->"
rows = []
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["what_it_breaks"].rstrip("."), m.get("caught_by", m["property"])))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
i, j = s.index(A) + len(A), s.index(B)
s = s[:i] + "\n| bug | what it breaks | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[j:]
open(p, "w").write(s)
print(len(rows))
