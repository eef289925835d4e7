"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = json.load(open(V + "/tools/missed.json"))
rows = ["| planted bug | needs | caught by |", "|---|---|---|"]
for d in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
    note = MISSED.get(d)
    rows.append("| %s | %s | %s%s |" % (d, m["needs"].replace("|", "\\|"), m["property"], "; missed first [%s]" % note if note else ""))
s = open(V + "/DESIGN.md").read()
a = s.index("## 7.")
a = s.index("\n\n", s.index("\n\n", a) + 2) + 2
b = s.index("## 8.")
open(V + "/DESIGN.md", "w").write(s[:a] + "\n".join(rows) + "\n\n" + s[b:])
