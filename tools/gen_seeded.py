#!/usr/bin/env python3
# rewrites section 4 of DESIGN.md from seeded/*/meta.json (documentation only; no check uses this)
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(root + "/DESIGN.md").read().split("\n## 4. ")[0].rstrip("\n")
rows = []
for d in sorted(glob.glob(root + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
s += """

## 4. Planted bugs

Each was written from a property's text and the code, passes the repository's tests, and
comes with a demonstration.  Every one below is caught by the quick check of the property
it names (the check reports a minimal case and a replay file).  Besides these, a campaign
of automatic mutations of the anchored headers (operators, constants, bounds, dropped
statements; one mutant per build, several hundred so far) was run against the checks; the
survivors were read one by one and either found equivalent, in code nothing reaches, or
answered with a stronger generator or oracle.

| planted bug | property | what it breaks | what it needs |
|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(root + "/DESIGN.md", "w").write(s)
