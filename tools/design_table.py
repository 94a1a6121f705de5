#!/usr/bin/env python3
"""Rewrite the planted-bug table at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
s = open(here + "/DESIGN.md").read()
mark = "<!-- planted -->\n"
s = s[: s.index(mark) + len(mark)] + "\n| planted change | breaks | needs | caught by |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(here + "/DESIGN.md", "w").write(s)
