#!/usr/bin/env python3
"""Fills the generated lists of DESIGN.md (development tool): design.py < template > DESIGN.md"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "DESIGN.md")).read()
k = json.load(open(os.path.join(V, "KNOWN_FINDINGS.json")))
fx = "\n".join("* `%s` (%s) %s" % (c, p, w) for p, c, w in (re.match(r"fixed: property=(\S+) (\S+) (.*)", f).groups() for f in k["fixed"]))
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], caught.get(b, "?")))


def put(t, tag, body):
    m = "<!-- %s -->\n%s\n<!-- /%s -->" % (tag, body, tag)
    if "@%s@" % tag in t:
        return t.replace("@%s@" % tag, m)
    return re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (tag, tag), lambda _: m, t, flags=re.S)


t = put(put(t, "FIXES", fx), "BUGS", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
