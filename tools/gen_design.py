#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "## 5. Planted bugs\n"
d = open(V + "/DESIGN.md").read().split(MARK)[0]
rows = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"],
                m["what_it_breaks"].replace("|", "/").replace("\n", " "), m["needs"].replace("|", "/").replace("\n", " ")))
extra = ""
p = V + "/tools/planted_notes.md"
if os.path.exists(p):
    extra = open(p).read()
open(V + "/DESIGN.md", "w").write(d + MARK + extra + "\n| id | caught by | breaks | needs |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
