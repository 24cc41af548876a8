#!/usr/bin/env python3
"""E1 driver.

  run.py PROPERTY [quick|thorough]     decide a property
  run.py --explore MODULE [thorough]   print surprises (development)
"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from common import *
import report

# property -> (module, what one witness is, least number of rejected / accepted programs)
PROPS = {
    "V01": ("v01", "trees in which two nodes would answer to one token", 60, 50),
    "V02": ("v02", "names that could not be typed or matched as one token", 120, 45),
    "V03": ("v03", "trees with a policy that contradicts its node or another policy", 280, 60),
    "V04": ("v04", "trees in which a token's owner is ambiguous because of counts or positions", 120, 80),
    "V05": ("v05", "trees with an alias or dependency that cannot be honoured", 70, 40),
    "V06": ("v06", "trees of an impossible shape", 80, 40),
    "V07": ("v07", "trees whose routed values do not fit", 80, 120),
    "V08": ("v08", "legal trees", 0, 150),
    "T02": ("t02", "bare strings and the policies they become", 15, 200),
    "T03": ("t03", "nodes and the way help shows them", 3, 200),
}


def decide(prop, tier):
    mod, what, min_bad, min_good = PROPS[prop]
    fam = importlib.import_module(mod).families(tier == "thorough")
    rep = report.Report(prop, tier, "other")
    bad = [w for w in fam.ws if w.kind == "bad"]
    good = [w for w in fam.ws if w.kind == "good"]
    if len(bad) < min_bad or len(good) < min_good:
        raise report.Broken("only %d/%d witnesses were generated" % (len(bad), len(good)))
    r = Runner()
    try:
        try:
            res = r.run(fam.ws)
        except Umbrella as e:
            # nothing that uses the library compiles, so nothing can be said
            raise report.Broken(str(e))
    finally:
        r.close()
    by_id = {w.id: w for w in fam.ws}
    sites, inconclusive = {}, 0
    for w in fam.ws:
        ok, diag = res[w.id]
        cmd = "// %s\n// replay: %s -include <prelude: see e1/common.py> -fsyntax-only <this file>\n" % (
            w.note, " ".join(w.cfg.flags()))
        if w.kind == "good" and not ok:
            rep.violation(w.id, "%s: a legal program is rejected (%s): %s" % (w.id, w.note, diag),
                          cmd + "// expected: accepted; got: %s\n" % diag + PRELUDE + w.code, ".cpp")
        elif w.kind == "bad" and ok:
            rep.violation(w.id, "%s: accepted, but must not compile: %s" % (w.id, w.note),
                          cmd + "// expected: rejected; got: accepted.  legal twin: %s\n" % w.twin + PRELUDE + w.code, ".cpp")
        elif w.kind == "bad":
            if not res[w.twin][0]:
                inconclusive += 1      # its twin is reported already
            m = re.match(r"(.*?):(\d+)", diag)
            s = os.path.relpath(m.group(1), REPO) if m else "?"
            sites[s] = sites.get(s, 0) + 1
    done_bad = sum(1 for w in bad if not res[w.id][0])
    done_good = sum(1 for w in good if res[w.id][0])
    rep.finish({
        "explanation": "Twin programs over /repo's current headers, decided by the compiler's front end "
                       "(-fsyntax-only; nothing is run): %s. Each offending program must be rejected, its "
                       "legal twin, which differs only in the offending construct, accepted." % what,
        "programs_rejected_as_required": done_bad, "programs_accepted_as_required": done_good,
        "compiler_runs": r.compiles, "configurations": sorted({w.cfg.name for w in fam.ws}),
        "rejecting_headers": dict(sorted(sites.items())),
        "twins_unusable": inconclusive,
        "samples": [w.note for w in fam.ws[::max(1, len(fam.ws) // 8)]][:8],
    }, ["the compiler front end implements the language", "a witness stands for every tree that "
        "contains the same construct in the same position: the rules are templates over the tree's types"])


def explore(argv):
    fam = importlib.import_module(argv[0]).families(len(argv) > 1 and argv[1] == "thorough")
    r = Runner()
    t = time.time()
    res = r.run(fam.ws)
    bad = 0
    for w in fam.ws:
        ok, d = res[w.id]
        if ok != (w.kind == "good"):
            bad += 1
            print("SURPRISE", w.id, "accepted" if ok else "rejected", "--", w.note, d[:300])
            if len(argv) > 2:
                print(w.code)
    asserts = {}
    for w in fam.ws:
        if w.kind == "bad":
            m = re.match(r"(.*?):(\d+)", res[w.id][1])
            asserts.setdefault("%s:%s" % (os.path.relpath(m.group(1), REPO) if m else "?", m.group(2) if m else 0), []).append(w.id)
    for k in sorted(asserts):
        print("  ", k, len(asserts[k]), asserts[k][0])
    print(len(fam.ws), "witnesses,", bad, "surprises,", r.compiles, "compiles, %.1fs" % (time.time() - t))
    r.close()


if __name__ == "__main__":
    if sys.argv[1] == "--explore":
        explore(sys.argv[2:])
    else:
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
        report.guarded(lambda: decide(sys.argv[1], tier))
