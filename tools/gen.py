#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (development tool; not used by checks)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/arg_router/"
P, CHECKS, NA = [], [], []


def prop(pid, title, statement, over, otext, why, files, mech, observe=None):
    assert len(title) <= 80, (pid, len(title))
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": otext},
              "why_tests_cant": why, "anchors": {"files": [I + f for f in files], "mechanism": [{"name": n, "where": I + w} for n, w in mech]}})


def e1(pid, note):
    CHECKS.append({"property": pid, "quick_cmd": "python3 e1/run.py %s quick" % pid, "thorough_cmd": "python3 e1/run.py %s thorough" % pid,
                   "technique": "compile-fail / compile-pass twin witnesses over the current headers (type-level rules, front end only)",
                   "level": "other", "level_note": note})


def check(pid, cmd, technique, level, note):
    CHECKS.append({"property": pid, "quick_cmd": cmd + " %s quick" % pid, "thorough_cmd": cmd + " %s thorough" % pid,
                   "technique": technique, "level": level, "level_note": note})


W_NOTE = ("Each rule is a template over the tree's types, so a witness per rule, node kind, position and nesting context decides it for the trees "
          "that share that construct; trees with constructs in no witness are not covered. Trusts the compiler front end. ")
for t in ("props_table.py", "props_r.py", "props_h.py", "props_u.py"):
    exec(open(os.path.join(V, "tools", t)).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
ids = [p["id"] for p in P]
claimed = [c["property"] for c in CHECKS]
assert sorted(claimed + [n["property"] for n in NA]) == sorted(ids), (set(ids) ^ set(claimed))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": CHECKS, "not_applicable": NA}, f, indent=1)
    f.write("\n")
print(len(P), "properties,", len(CHECKS), "claimed")
