#!/usr/bin/env python3
"""E2 driver: run.py PROPERTY [quick|thorough]"""
import os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
import report
import build
import engine, families
from engine import cstr

CONTROL = '#include "h.hpp"\nextern "C" void h_main() { const auto r = ar::root(arp::validation::default_validator, arp::exception_translator<codes>, ar::mode(ar::flag("alpha"_S), arp::router{[](bool) {}})); (void)r; }\n'


def control_compiles():
    with tempfile.TemporaryDirectory(prefix="ar_e2_") as d:
        p = os.path.join(d, "c.cpp")
        with open(p, "w") as f:
            f.write(CONTROL)
        return engine.compile_cpp(p, os.path.join(d, "c.bc"))


def decide(prop, tier):
    builder = subprocess.Popen([sys.executable, os.path.join(HERE, "build.py")], stdout=subprocess.DEVNULL)  # overlaps with the first compilations
    deep = tier == "thorough"
    fam = families.ALL[prop]
    cases = list(fam(deep))
    rep = report.Report(prop, tier, "other")
    res = engine.run_cases(cases, 700 if deep else 400)
    if builder.wait():
        raise report.Broken("the abstract interpreter does not build")
    undecided, tot = [], {"partitions": 0, "cells": 0, "steps": 0, "accepted": 0, "rejected": 0}
    funcs = calls = 0
    for c in cases:
        r = res[c.name]
        if r["error"] is not None:
            e = control_compiles()
            if e is not None:
                raise report.Broken("no program that uses the library compiles: " + e[:600])
            first = next((l for l in r["error"].splitlines() if "error:" in l), r["error"][:300])
            rep.violation("%s:%s:compile" % (prop, c.name), "%s: a legal tree does not compile: %s" % (c.name, first), r["error"] + "\n" + c.cpp(), ".cpp")
            continue
        undecided += r["undecided"]
        seen = {}
        for p in r["problems"]:
            k = (p["why"], p["throws"][-1] if p["throws"] else "")
            seen.setdefault(k, []).append(p)
        for (why, at), ps in sorted(seen.items()):
            p = min(ps, key=lambda q: (sum(len(r) for r in q["earlier"]) + len(q["args"]), q["args"]))
            words = " ".join(p["args"])
            before = "".join("after parsing [%s], " % " ".join(a) for a in p["earlier"])
            sw = (" switches %s" % p["bools"]) if p["bools"] else ""
            rep.violation("%s:%s:%s:%s%s" % (prop, c.name, why, before, words),
                          "tree %s%s, %stokens [%s]: %s; must be: %s; the code reaches: %s%s  (%d partitions)" % (
                              c.name, sw, before, words, why, p["expected"], p["found"], (", thrown at " + at.split(" at ", 1)[-1]) if at else "", len(ps)),
                          "property %s, tree %s\n%sswitches: %s\ntokens (<lo-hi> is any byte in that range):\n%s\n\nmust be:  %s\nreaches:  %s\nthrown:   %s\n\nthe analysed entry point:\n%s\n" % (
                              prop, c.name, before, p["bools"], "\n".join("  " + a for a in p["args"]), p["expected"], p["found"], "\n          ".join(p["throws"]), c.cpp()))
        need = len(engine.splits(c))
        if r["partitions"] < max(need // 2, getattr(c, "min_parts", 1)) and not r["undecided"]:
            raise report.Broken("%s: only %d partitions" % (c.name, r["partitions"]))
        for k in tot:
            tot[k] += r.get(k, 0)
        funcs, calls = max(funcs, r["library_functions"]), calls + r["call_sites"]
    if not rep.violations:
        if undecided:
            raise report.Broken("the analysis could not decide %d parts: %s" % (len(undecided), undecided[0]))
        if funcs < cases[0].min_funcs or (not cases[0].safety and (tot["accepted"] < 5 or tot["rejected"] < 5)):
            raise report.Broken("implausible coverage: %s" % tot)
    rep.finish({
        "explanation": "Abstract interpretation of the LLVM intermediate representation of /repo's current headers, instantiated for %d parse trees: %s. "
                       "Token bytes are sets, branches partition them, and every partition's abstract outcome (routed values, rejection code and tokens, defined "
                       "behaviour, released memory) is compared with an independent reading of the tree. Nothing is run." % (len(cases), fam.__doc__),
        "trees": {c.name: {"partitions": res[c.name]["partitions"], "obligations": res[c.name]["cells"], "tokens": c.n, "shapes": [len(s) for s in c.at]} if c.n else {"partitions": res[c.name]["partitions"], "obligations": res[c.name]["cells"]} for c in cases},
        "partitions": tot["partitions"], "obligations": tot["cells"], "accepting_partitions": tot["accepted"], "rejecting_partitions": tot["rejected"],
        "instructions_interpreted": tot["steps"], "library_functions": funcs, "library_call_sites": calls,
    }, ["command lines are bounded in length, and drawn from the token shapes of each tree, some of them of unknown bytes", "clang's lowering to IR is correct",
        "operator new succeeds"])


if __name__ == "__main__":
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    report.guarded(lambda: decide(sys.argv[1], tier))
