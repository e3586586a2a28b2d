#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written text plus the table of planted bugs."""
import glob, json, os
out = open("/verif/tools/DESIGN.head.md").read()
out += "| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"
c = lambda s: s.replace("|", "\\|").replace("\n", " ")
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    out += f"| {os.path.basename(d)} | {m['property']} | {c(m['needs'])} | {c(m['what_it_breaks'])} |\n"
out += open("/verif/tools/DESIGN.tail.md").read()
open("/verif/DESIGN.md", "w").write(out)
