"""Analyses whose entry point is a function body of its own: help text, Unicode, languages."""
from engine import Broken, cell
from model import S, Env, Split


class Body:
    """check(events, env, end) -> None or (why, expected, found); events are (tag, cells)."""
    header = "io.hpp"
    cut = False
    min_funcs = 5
    safety = True
    n = 0
    at = []
    defines = ()
    min_parts = 1

    def __init__(self, name, code, check, splits=None, extra="", min_parts=1, defines=()):
        self.name, self.code, self.extra = name, code, extra
        if check:
            self.check = check
        self._splits = splits or [[]]
        self.min_parts, self.defines = min_parts, list(defines)

    def cpp(self):
        return '#include "%s"\n%s\nextern "C" void h_main() {\n%s\n}\n' % (self.header, self.extra, self.code)

    def splits(self):
        return self._splits

    def judge(self, rec):
        env = Env({i: [tuple(r) for r in d] for i, d in enumerate(rec["dom"])})
        evs = [(e[0], [cell(x) for x in e[1:]]) for e in rec["trace"] if not e[0].startswith(("throw:", "libthrow:"))]
        count = [0]
        throws = [t[0] for t in rec["trace"] if t[0].startswith(("throw:", "libthrow:"))][-2:]

        def problem(why, expected, found, env):
            return {"why": why, "args": [self.inputs(evs, env)], "earlier": [], "bools": [], "expected": expected, "found": found, "key": why, "throws": throws}

        def go(env, depth):
            if depth > 4000:
                raise Broken("too many cells")
            try:
                end = rec["end"]
                bad = None
                if end.startswith("ub:"):
                    bad = ("undefined behaviour", "defined behaviour", "%s %s" % (end, rec["detail"]))
                elif end in ("uncaught", "terminate"):
                    bad = ("an exception leaves", "no exception", "%s %s" % (end, rec["detail"]))
                elif end == "return" and rec["leak"]:
                    bad = ("%d objects are never released" % rec["leak"], "everything released", "")
                else:
                    bad = self.check(evs, env, end)
                count[0] += 1
                return problem(*bad, env) if bad else None
            except Split as s:
                for part in s.parts:
                    p = go(env.restrict(s.sym, part), depth + 1)
                    if p:
                        return p
                return None
        return count[0] or 1, go(env, 0), count

    def inputs(self, evs, env):
        o = []
        for t, c in evs:
            if t == "choice":
                o.append("choice %s" % c[0])
            elif t in ("sym", "bytes"):
                o += ["%s in %s" % (t, ",".join("%x-%x" % r for r in env.dom[x][:4])) for x in c]
        return "; ".join(o)


def text(cells):
    if not all(isinstance(c, int) for c in cells):
        return None
    return bytes(c & 0xff for c in cells).decode("utf8", "replace")
