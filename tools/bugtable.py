"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property | needs |", "|---|---|---|"]
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    rows.append("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
s = open(V + "/DESIGN.md").read()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->\n"
if "BUGTABLE\n" in s:
    s = s.replace("BUGTABLE\n", a + b)
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
