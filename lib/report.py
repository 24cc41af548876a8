"""Verdicts, evidence files and known findings, shared by every engine."""
import json, os, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AR_REPO", "/repo")


class Broken(Exception):
    """The check cannot give an answer (exit 2)."""


class Report:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.violations = []
        self.known = []
        self.suppressed = self._known_findings()
        self.replay_dir = os.path.join(VERIF, "build", "replay", prop)
        os.makedirs(self.replay_dir, exist_ok=True)
        for f in os.listdir(self.replay_dir):
            os.unlink(os.path.join(self.replay_dir, f))

    def _known_findings(self):
        out = {}
        p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
        for e in json.load(open(p))["findings"]:
            if e["property"] == self.prop:
                out[e["key"]] = e["what"]
        return out

    def violation(self, key, what, replay_text, ext=".txt"):
        """key identifies the specific construct, so that a known finding suppresses only itself."""
        if key in self.suppressed:
            self.known.append(key)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, self.suppressed[key]))
            return
        n = len(self.violations)
        path = os.path.join(self.replay_dir, "%03d%s" % (n, ext))
        with open(path, "w", encoding="utf8", errors="replace") as f:
            f.write(replay_text)
        self.violations.append((key, what))
        print("VIOLATION property=%s replay=%s" % (self.prop, path))
        print("  " + what)

    def finish(self, coverage, assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": self.level, "coverage": coverage, "assumptions": list(assumptions),
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        if self.violations:
            print("%s: %d violation(s), %.1f s" % (self.prop, len(self.violations), ev["wall_s"]))
            sys.exit(1)
        print("%s: holds on everything explored (%.1f s)" % (self.prop, ev["wall_s"]))
        sys.exit(0)


def guarded(fn):
    try:
        fn()
    except SystemExit:
        raise
    except Exception as e:      # never turn an internal error into a verdict
        traceback.print_exc()
        print("ERROR: the check could not give an answer: %s" % e)
        sys.exit(2)
