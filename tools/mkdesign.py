#!/usr/bin/env python3
"""mkdesign.py: puts DESIGN.md together from tools/design_*.md and the list of planted bugs."""
import glob, json, os
os.chdir("/verif")
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f)); i = f.split("/")[1]
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "not checked")))
t = "".join(open("tools/design_%s.md" % p).read() for p in ("head", "props", "tail"))
open("DESIGN.md", "w").write(t.replace("@@SEEDS@@", "\n".join(rows)))
