#!/usr/bin/env python3
"""the table of planted bugs in DESIGN.md, from seeded/*/meta.json"""
import glob, json, os
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for m in sorted(glob.glob("/verif/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"].replace("|", "/")))
p = "/verif/DESIGN.md"
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
