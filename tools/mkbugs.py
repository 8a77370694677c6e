#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = "| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n"
for m in sorted(glob.glob(H + "/seeded/*/meta.json")):
    d = json.load(open(m))
    t += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["needs"], d["what_it_breaks"])
s = open(H + "/DESIGN.md").read()
s = re.sub(r"<!-- bugs -->.*?<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + t + "<!-- /bugs -->", s, flags=re.S)
open(H + "/DESIGN.md", "w").write(s)
