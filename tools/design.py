#!/usr/bin/env python3
"""Development only: writes the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
head = open(path).read().split("<!-- planted -->")[0]
rows = []
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "\\|"),
                                       m.get("caught_by", m["property"])))
open(path, "w").write(head + "<!-- planted -->\n\n| id | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n")
