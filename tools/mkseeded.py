"""writes the table of the planted bugs into DESIGN.md (between the markers)"""
import json
import os
import re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | file | property, caught by its check | what it breaks | needs |",
        "|---|---|---|---|---|"]
S = os.path.join(HERE, "seeded")
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, "meta.json")))
    files = re.findall(r"^\+\+\+ b/smote_variants/(\S+)",
                       open(os.path.join(S, b, "patch.diff")).read(), re.M)
    rows.append("| %s | %s | %s | %s | %s |" % (
        b, ", ".join(files), m["property"], m["what_it_breaks"], m["needs"]))
p = os.path.join(HERE, "DESIGN.md")
s = open(p).read()
a, z = "<!-- seeded -->", "<!-- /seeded -->"
i, j = s.index(a) + len(a), s.index(z)
open(p, "w").write(s[:i] + "\n" + "\n".join(rows) + "\n" + s[j:])
