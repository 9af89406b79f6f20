#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run by hand after planting)."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = here + "/DESIGN.md"
s = open(p).read()
t = "<!-- table -->\n| id | caught by (quick) | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n<!-- end -->"
if "<!-- table -->" in s:
    s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: t, s, flags=re.S)
else:
    s = s.rstrip() + "\n\n" + t + "\n"
open(p, "w").write(s)
