#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development aid)."""
import glob, json, os
rows = []
for m in glob.glob("/verif/seeded/*/meta.json"):
    d = json.load(open(m))
    rows.append((d["property"], os.path.basename(os.path.dirname(m)), d["what_it_breaks"], d["needs"]))
s = open("/verif/DESIGN.md").read()
mark = "<!-- planted bugs, written by tools/seedtable.py -->\n"
s = s[: s.index(mark) + len(mark)]
s += "| caught by | id | what it breaks | needs |\n|---|---|---|---|\n"
for r in sorted(rows):
    s += "| %s | %s | %s | %s |\n" % r
open("/verif/DESIGN.md", "w").write(s)
