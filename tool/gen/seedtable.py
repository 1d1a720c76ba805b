#!/usr/bin/env python3
"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rows = []
for f in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append("| %s | %s | %s |" % (m["property"], f.split("/")[-2], m["what_it_breaks"]))
s = open(V + "/DESIGN.md").read()
s = re.sub(r"(\| check \| change \| what it breaks \|\n\|---\|---\|---\|\n)(\|.*\n)*", lambda m: m.group(1) + "\n".join(sorted(rows)) + "\n", s)
open(V + "/DESIGN.md", "w").write(s)
