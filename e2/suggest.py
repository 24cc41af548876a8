"""The name suggested for a mistyped argument."""
from bodies import Body, text
from engine import Broken, cell
from model import S, is_byte


def distance(env, a, b):
    """Edit distance of characters (lists of tuples of cells, the second of known bytes)."""
    same = lambda x, y: len(x) == len(y) and all(is_byte(env, p, q) for p, q in zip(x, y))
    row = list(range(len(b) + 1))
    for i, x in enumerate(a):
        new = [i + 1]
        for j, y in enumerate(b):
            new.append(min(new[j] + 1, row[j + 1] + 1, row[j] + (not same(x, y))))
        row = new
    return row[-1]


def chars(cells):
    out = []
    for c in cells:
        if isinstance(c, int) and c & 0xc0 == 0x80:
            out[-1] += (c,)
        else:
            out.append((c,))
    return out


class Suggest(Body):
    """tree: C++ text of the root's children; names: (path, prefix, name, switch) of everything that has a name, per node that may be asked."""
    header = "h.hpp"

    def __init__(self, name, children, names, shapes, bools=0, lead=()):
        self.names, self.shapes, self.lead, self.bools = names, shapes, list(lead), bools
        o = ["  const bool b%d = ev_choice(2);" % i for i in range(bools)]
        o.append("  const auto r = ar::root(arp::validation::default_validator, arp::exception_translator<codes>,\n    %s);" % ",\n    ".join(children))
        for k, (pre, n, lo, hi) in enumerate(shapes):
            o.append('  static constexpr piece s%d[] = {{"%s", %d, 0, 0}, {nullptr, %d, %d, %d}};' % (k, pre, len(pre.encode()), n, lo, hi))
        o.append("  std::vector<std::string_view> args{%s};" % ", ".join('"%s"' % x for x in lead))
        o.append("  switch (ev_choice(%d)) {" % len(shapes))
        for k in range(len(shapes)):
            o.append("    case %d: args.push_back(make_token(s%d, 2)); break;" % (k, k))
        o.append("  }")
        o.append('  try { r.parse(args); ev_log("ok"); } catch (const ar::parse_exception& e) { ev_sv("err", e.what()); }')
        sp = [[]]
        for _ in range(bools):
            sp = [p + [b] for p in sp for b in (0, 1)]
        super().__init__(name, "\n".join(o), None, splits=[p + [k] for p in sp for k in range(len(shapes))], min_parts=len(shapes))

    def check(self, evs, env, end):
        it = iter(evs)
        on = [next(it)[1][0] for _ in range(self.bools)]
        pre, n, _, _ = self.shapes[next(it)[1][0]]
        tok = list(pre.encode())
        res = None
        for t, c in it:
            if t == "bytes":
                tok += [S((x,)) for x in c]
            elif t in ("ok", "err$"):
                res = (t, c)
        if res is None:
            return "no outcome", "accepted or rejected", end
        if res[0] == "ok":
            return None
        msg = res[1]
        i = msg.index(58)
        code = bytes(msg[:i]).decode()
        if not code.startswith("unknown_argument"):
            return None
        parts, cur = [], []
        for c in msg[i + 1:]:
            if c == 124:
                parts.append(cur)
                cur = []
            else:
                cur.append(c)
        parts.append(cur)
        live = [x for x in self.names if all(on[s] for s in x[3])]
        if not live:
            return None if code == "unknown_argument" else ("a suggestion although everything is disabled", "none", code)
        if code != "unknown_argument_with_suggestion":
            return "no suggestion", "one of %s" % [x[:3] for x in live], code
        body = tok
        for p in (b"--", b"-"):
            if bytes(c for c in tok[:len(p)] if isinstance(c, int)) == p:
                body = tok[len(p):]
                break
        best = min(distance(env, chars(body), chars(list(x[2].encode()))) for x in live)
        ok = [list(x[0]) + [x[1] + x[2]] for x in live if distance(env, chars(body), chars(list(x[2].encode()))) == best]
        got = [bytes(p).decode("utf8", "replace") if all(isinstance(c, int) for c in p) else "?" for p in parts[1:]]
        if got not in ok:
            return "the suggestion is not the closest enabled name", "one of %s" % ok, str(got)
        return None


R = "arp::router{[](auto&&...) {}}"
LOW = (0x61, 0x7a)


def R22(deep):
    """suggestions for unknown names"""
    flat = ["ar::mode(ar::flag(\"alpha\"_S, \"a\"_S), ar::flag(\"beta\"_S), ar::arg<std::string_view>(\"gamma\"_S, \"g\"_S), ar::flag(\"hello\"_S, arp::runtime_enable<>{b0}), %s)" % R]
    fn = [((), "--", "alpha", ()), ((), "-", "a", ()), ((), "--", "beta", ()), ((), "--", "gamma", ()), ((), "-", "g", ()), ((), "--", "hello", (0,))]
    yield Suggest("flat", flat, fn, [("--", k, *LOW) for k in ((1, 2, 3) if deep else (1, 2))] + [("--be", 2, *LOW), ("--hell", 1, *LOW), ("--helo", 1, *LOW), ("--alp", 2, *LOW), ("--gam", 1, *LOW), ("-", 1, *LOW)], bools=1)
    modes = ["ar::flag(\"top\"_S, %s)" % R, "ar::mode(\"run\"_S, ar::flag(\"fast\"_S), ar::flag(\"fist\"_S, arp::runtime_enable<>{b0}), %s)" % R, "ar::mode(\"rub\"_S, arp::runtime_enable<>{b1}, ar::flag(\"soft\"_S), %s)" % R]
    mn = [((), "--", "top", ()), ((), "", "run", ()), (("run",), "--", "fast", ()), (("run",), "--", "fist", (0,)), ((), "", "rub", (1,)), (("rub",), "--", "soft", (1,))]
    yield Suggest("modes", modes, mn, [("--", 2, *LOW), ("ru", 1, *LOW), ("", 3 if deep else 2, *LOW), ("--f", 2, *LOW), ("--sof", 1, *LOW), ("--fis", 2, *LOW)], bools=2)
    yield Suggest("inside", modes, [((), "--", "fast", ()), ((), "--", "fist", (0,))], [("--", 2, *LOW), ("--f", 3, *LOW), ("--fis", 2, *LOW), ("--s", 1, *LOW)], bools=2, lead=["run"])
    uni = ["ar::mode(ar::flag(\"\u0e41\u0e21\u0e27\"_S), ar::flag(\"caf\u00e9\"_S), ar::flag(\"\u732b\"_S), %s)" % R]
    yield Suggest("unicode", uni, [((), "--", "\u0e41\u0e21\u0e27", ()), ((), "--", "caf\u00e9", ()), ((), "-", "\u732b", ())], [("--caf", 1, *LOW), ("--\u0e41", 1, *LOW), ("--\u732b", 1, *LOW), ("--\u00e9", 2, *LOW), ("--ca\u0301f", 1, *LOW)])
    near = ["ar::mode(ar::flag(\"\u00e0\u00e8\u00ec\"_S), ar::flag(\"\u00e9\u00e8\u00ea\"_S), ar::flag(\"\u65e5\u672c\"_S), ar::flag(\"abcd\"_S), %s)" % R]
    yield Suggest("near", near, [((), "--", x, ()) for x in ("\u00e0\u00e8\u00ec", "\u00e9\u00e8\u00ea", "\u65e5\u672c", "abcd")], [("--\u00e9", 1, *LOW), ("--\u00e9\u00e8", 1, *LOW), ("--\u65e5", 1, *LOW), ("--\u672c", 1, *LOW), ("--\u00e8\u00e8\u00ec", 1, *LOW), ("--", 1, *LOW)])


ALL = {"R22": R22}
