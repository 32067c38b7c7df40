#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (documentation only; no check reads seeded/)."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(V, "DESIGN.md")
s = open(p).read().split("<!-- seeds -->")[0] + "<!-- seeds -->\n| id | caught by | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    c = lambda x: x.replace("|", "/").replace("\n", " ")
    s += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], c(m["needs"]), c(m["what_it_breaks"]))
open(p, "w").write(s)
