"""Conversion of a value's text to its type."""
import json
from bodies import Body
from model import S, is_byte

# name: (C++ type, least, greatest)
INTS = {"int": (-2**31, 2**31 - 1), "unsigned": (0, 2**32 - 1), "long": (-2**63, 2**63 - 1), "std::size_t": (0, 2**64 - 1), "short": (-2**15, 2**15 - 1),
        "unsigned short": (0, 2**16 - 1), "std::int8_t": (-128, 127), "std::uint8_t": (0, 255)}
TRUE, FALSE = ["true", "yes", "y", "on", "1", "enable"], ["false", "no", "n", "off", "0", "disable"]


def known(env, c):
    """The number a cell stands for, if its symbol is settled."""
    if isinstance(c, S):
        d = env.dom[c[0]]
        return d[0][0] if d[0][0] == d[-1][1] else c
    if isinstance(c, tuple) and c[0] == "?":
        d = json.loads(c[1])
        x = known(env, S((d["s"],)))
        if isinstance(x, int):
            return next((a * x + b) % 2**64 for lo, hi, a, b in d["p"] if lo <= x <= hi)
    return c


def integer(env, t):
    """The integer the cells spell in decimal, or None; asks about symbols only as needed."""
    neg = False
    if t and is_byte(env, t[0], 45):
        neg, t = True, t[1:]
    elif t and is_byte(env, t[0], 43):
        t = t[1:]
    if not t:
        return None
    v = 0
    for c in t:
        if isinstance(c, S):
            if not env.within(c[0], 48, 57):
                return None
            for d in range(48, 58):
                if is_byte(env, c, d):
                    c = d
                    break
        if not 48 <= c <= 57:
            return None
        v = v * 10 + c - 48
    return (neg, v)


class Convert(Body):
    header = "num.hpp"

    def __init__(self, name, ctype, kind, shapes, optional=False):
        self.kind, self.shapes, self.ctype = kind, shapes, ctype
        full = "std::optional<%s>" % ctype if optional else ctype
        o = []
        for k, sh in enumerate(shapes):
            o.append("  static constexpr piece s%d[] = {%s};" % (k, ", ".join('{"%s", %d, 0, 0}' % (p, len(p)) if isinstance(p, str) else "{\"\", 0, 0, 0}" if p == 0 else "{nullptr, %d, 1, 255}" % p for p in (sh or ("",)))))
        o.append("  std::string_view t;\n  switch (ev_choice(%d)) {" % len(shapes))
        for k, sh in enumerate(shapes):
            o.append("    case %d: t = make_token(s%d, %d); break;" % (k, k, max(1, len(sh))))
        o.append("  }\n  static constexpr auto r = ar::root(arp::validation::default_validator, arp::exception_translator<codes>,\n    ar::mode(ar::arg<%s>(\"value\"_S, arp::required), arp::router{[](%s v) { ev_log(\"ok\"); give(v); }}));" % (full, full))
        o.append('  try { r.parse(std::vector<std::string_view>{"--value", t}); } catch (const ar::parse_exception& e) { ev_sv("err", e.what()); }')
        extra = """template <typename T> void give(const T& v) {
  if constexpr (std::is_same_v<T, bool>) ev_log("bool", int(v));
  else if constexpr (std::is_integral_v<T>) ev_log("num", static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
  else ev_sv("text", v);
}
template <typename T> void give(const std::optional<T>& v) { if (v) give(*v); else ev_log("none"); }
"""
        super().__init__(name, "\n".join(o).replace("static constexpr auto r", "const auto r"), None, splits=[[k] for k in range(len(shapes))], extra=extra, min_parts=len(shapes))

    def check(self, evs, env, end):
        it = iter(evs)
        sh = self.shapes[next(it)[1][0]]
        by, out = [], []
        for t, c in it:
            if t == "bytes":
                by.append([S((x,)) for x in c])
            elif t not in ("choice", "sym"):
                out.append((t, c))
        tok = []
        for p in sh:
            tok += list(p.encode()) if isinstance(p, str) else by.pop(0) if p else []
        want = None
        if self.kind == "int":
            lo, hi = INTS[self.ctype]
            v = integer(env, tok)
            if v is not None:
                n, v = v
                if lo == 0 and n:
                    v = -1
                elif n:
                    v = -v
                if lo <= v <= hi:
                    want = ("num", [v % 2**64])
        elif self.kind == "bool":
            for w, l in ((1, TRUE), (0, FALSE)):
                for x in l:
                    if len(x) == len(tok) and all(is_byte(env, a, b) for a, b in zip(tok, x.encode())):
                        want = ("bool", [w])
        else:
            want = ("text", tok)
        got = out[0][0] if out else "nothing"
        if want is None:
            if got != "err$" or len(out) != 1 or not out[0][1][:16] == list(b"failed_to_parse:"):
                return "accepted, or rejected as something else", "failed_to_parse", str(out)
            rest = out[0][1][16:]
            if len(rest) != len(tok) or not all(a == b or (isinstance(b, S) and isinstance(a, int) and is_byte(env, b, a)) for a, b in zip(rest, tok)):
                return "the rejection does not name the value", str(tok), str(rest)
            return None
        if got != "ok" or len(out) != 2 or out[1][0].rstrip("$") != want[0]:
            return "not accepted", str(want), str(out)
        g, w = [known(env, c) for c in out[1][1]], want[1]
        if len(g) != len(w) or not all(a == b or (isinstance(a, S) and isinstance(b, int) and is_byte(env, a, b)) or (isinstance(b, S) and isinstance(a, int) and is_byte(env, b, a)) for a, b in zip(g, w)):
            return "another value", str(w), str(g)
        return None


def digits(lo, hi, deep):
    o = [(1,), (2,), (3,)] if deep else [(1,), (2,)]
    for v in {lo, hi} - {0}:
        s = str(v)
        for k in (1, 2) if len(s) > 3 else (1,):
            o += [(s[:-k], k)]
        o += [(s[:-2], 1, s[-1]), (s, 1), (s[:-1] + "00", 1)]
        if s[0] == "-":
            o += [("-", 1, s[2:]), ("-0000" + s[1:-1], 1)]
        else:
            o += [(1, s[1:]), ("+", s[:-1], 1), ("0000" + s[:-1], 1), (1, s)]
    return o


def N01(deep):
    """text to value conversions"""
    for t, (lo, hi) in INTS.items():
        if not deep and t in ("short", "unsigned short"):
            continue
        yield Convert("int_" + t.replace(":", "_").replace(" ", "_"), t, "int", digits(lo, hi, deep or t == "int"))
    yield Convert("bool", "bool", "bool", [(n,) for n in range(9)])
    yield Convert("view", "std::string_view", "text", [(n,) for n in range(5)])
    yield Convert("string", "std::string", "text", [(n,) for n in (0, 1, 4, 15, 16, 17)])
    yield Convert("optional_bool", "bool", "bool", [(n,) for n in range(5)], True)
    yield Convert("optional_int", "int", "int", [(), (1,), ("2147483", 3), ("-21474836", 2)], True)
    yield Convert("optional_view", "std::string_view", "text", [(n,) for n in range(3)], True)
    yield Convert("optional_string", "std::string", "text", [(n,) for n in (0, 1, 16)], True)


ALL = {"N01": N01}
