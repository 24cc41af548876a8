"""Unicode: code points, user-perceived characters and lines, against the Unicode Character Database."""
import bisect, itertools, json, os
from bodies import Body
from engine import Broken
from model import S

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ucd14.json")) as f:
    UCD = {k: ([a for a, _ in v], [b for _, b in v]) for k, v in json.load(f).items()}
MAX = 0x10ffff


def runs(prop, lo, hi):
    """(first, last, value) of prop over lo..hi; value -1: not assigned in Unicode 14, anything goes."""
    a, v = UCD[prop]
    i = bisect.bisect_right(a, lo) - 1
    while i < len(a) and a[i] <= hi:
        yield max(a[i], lo), min((a[i + 1] if i + 1 < len(a) else MAX + 1) - 1, hi), v[i]
        i += 1


ENCODE = r"""
inline std::string_view encode(char* b, std::uint32_t c, unsigned n)
{
    if (n == 1) { b[0] = static_cast<char>(c); }
    else if (n == 2) { b[0] = static_cast<char>(0xc0 | (c >> 6)); b[1] = static_cast<char>(0x80 | (c & 0x3f)); }
    else if (n == 3) { b[0] = static_cast<char>(0xe0 | (c >> 12)); b[1] = static_cast<char>(0x80 | ((c >> 6) & 0x3f)); b[2] = static_cast<char>(0x80 | (c & 0x3f)); }
    else { b[0] = static_cast<char>(0xf0 | (c >> 18)); b[1] = static_cast<char>(0x80 | ((c >> 12) & 0x3f)); b[2] = static_cast<char>(0x80 | ((c >> 6) & 0x3f)); b[3] = static_cast<char>(0x80 | (c & 0x3f)); }
    return {b, n};
}
namespace u8 = ar::utility::utf8;
"""


def chunks(lo, hi, step):
    """Ranges whose encodings have one length, without surrogates."""
    o = []
    for a, b, n in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xd7ff, 3), (0xe000, 0xffff, 3), (0x10000, MAX, 4)):
        x = max(a, lo)
        while x <= min(b, hi):
            y = min(b, hi, (x // step + 1) * step - 1)
            o.append((x, y, n))
            x = y + 1
    return o


class Points(Body):
    """Something about every single code point; want(range) gives (tag, expected) pairs valid for the range."""
    header = "h.hpp"

    def __init__(self, name, log, check, lo=0, hi=MAX, step=0x4000):
        cs = chunks(lo, hi, step)
        code = "  static constexpr struct { std::uint32_t lo, hi; unsigned n; } ch[] = {%s};\n" % ", ".join("{%#x, %#x, %d}" % c for c in cs)
        code += "  const auto& c = ch[ev_choice(%d)];\n  const auto cp = static_cast<std::uint32_t>(ev_sym(c.lo, c.hi));\n  char* b = ev_alloc(c.n);\n  const auto s = encode(b, cp, c.n);\n" % len(cs)
        super().__init__(name, code + log, check, splits=[[i] for i in range(len(cs))], extra=ENCODE, min_parts=len(cs))


def of(cells, i=0):
    return cells[i]


def sym_of(evs):
    return next(c[0] for t, c in evs if t == "sym")


def value(c, env):
    """A cell's value for the whole partition, or splits."""
    if isinstance(c, int):
        return c
    raise Broken("value %s" % (c,))


class Table(Points):
    def __init__(self, prop, log, **k):
        self.prop = prop
        super().__init__(prop, log, None, **k)

    def check(self, evs, env, end):
        sym = sym_of(evs)
        got = value(next(c[0] for t, c in evs if t == self.prop), env)
        for lo, hi in env.dom[sym]:
            for a, b, v in runs(self.prop, lo, hi):
                if v != -1 and v != got:
                    return "wrong %s" % self.prop, "U+%04X%s: %s" % (a, "-U+%04X" % b if b > a else "", v), str(got)
        return None


def U01(deep):
    """terminal width and white space of every code point"""
    yield Table("width", '  ev_log("width", std::size_t{u8::terminal_width(s)});')
    yield Table("white", '  ev_log("white", std::size_t{u8::is_whitespace(s)});')


class Decode(Points):
    def __init__(self):
        super().__init__("decode", """  const auto d = u8::code_point::decode(s);
  ev_log("decoded", int(d.has_value() && *d == cp));
  ev_log("size", u8::code_point::size(s));
  std::size_t n = 0, bytes = 0;
  for (auto c : u8::code_point::iterator::range(s)) { ++n; bytes += c.size(); }
  ev_log("points", n);
  ev_log("bytes", bytes);
  ev_log("count", u8::code_point::count(s));
  ev_log("short", int(u8::code_point::decode(s.substr(0, c.n - 1)).has_value()));
""", None)

    def check(self, evs, env, end):
        lo, hi = env.dom[sym_of(evs)][0][0], env.dom[sym_of(evs)][-1][1]
        n = 1 if hi < 0x80 else 2 if hi < 0x800 else 3 if hi < 0x10000 else 4
        want = [("decoded", 1), ("size", n), ("points", 1), ("bytes", n), ("count", 1), ("short", 0)]
        got = [(t, value(c[0], env)) for t, c in evs if t not in ("choice", "sym")]
        bad = next(((w, g) for w, g in zip(want, got) if w != g), None)
        return ("decoding of a code point", str(bad[0]), str(bad[1])) if bad or len(want) != len(got) else None


def U02(deep):
    """decoding and stepping over every code point"""
    yield Decode()


ANY, CR, LF, CONTROL, EXTEND, ZWJ, RI, PREPEND, SPACING, L, V, T, LV, LVT, PICT = range(15)
PROBES = [0x61, 0x0d, 0x0a, 0x0b, 0x300, 0x200d, 0x1f1ec, 0x600, 0x903, 0x1100, 0x1160, 0x11a8, 0xac00, 0xac01, 0x1f600]


def boundaries(cl):
    """UAX #29, extended grapheme clusters: number of code points in each cluster."""
    out = []
    for i, c in enumerate(cl):
        if i == 0:
            out.append(1)
            continue
        p = cl[i - 1]
        if p == CR and c == LF:
            join = True
        elif p in (CR, LF, CONTROL) or c in (CR, LF, CONTROL):
            join = False
        elif p == L and c in (L, V, LV, LVT) or p in (LV, V) and c in (V, T) or p in (LVT, T) and c == T:
            join = True
        elif c in (EXTEND, ZWJ, SPACING) or p == PREPEND:
            join = True
        elif p == ZWJ and c == PICT:
            k = i - 2
            while k >= 0 and cl[k] == EXTEND:
                k -= 1
            join = k >= 0 and cl[k] == PICT
        elif p == RI and c == RI:
            k = i
            while k > 0 and cl[k - 1] == RI:
                k -= 1
            join = (i - k) % 2 == 1
        else:
            join = False
        if join:
            out[-1] += 1
        else:
            out.append(1)
    return out


def length(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


WALK = """  std::size_t n = 0;
  const char* at = t.data();
  for (auto it = u8::iterator{t}; it != u8::iterator{}; ++it) { const auto g = *it; ev_log("cluster", g.size()); ev_log("place", int(g.data() == at)); at += g.size(); ++n; }
  ev_log("n", int(n == u8::count(t)));
"""


def walked(evs):
    """Cluster sizes, or what is wrong."""
    got = [c[0] for t, c in evs if t == "cluster"]
    if any(t in ("place", "n") and c[0] != 1 for t, c in evs):
        return None
    return got


class Pair(Points):
    """Every code point before or after a probe."""
    def __init__(self, k, before):
        self.k, self.before = k, before
        p = PROBES[k]
        code = "  std::array<char, 8> tb; std::size_t tn = 0;\n"
        pb = chr(p).encode()
        put = "".join("  tb[tn++] = static_cast<char>(%d);\n" % x for x in pb)
        x = "  for (char y : s) tb[tn++] = y;\n"
        code += (put + x if before else x + put) + "  const std::string_view t{tb.data(), tn};\n" + WALK
        super().__init__("%s_%d" % ("after" if before else "before", k), code, None)

    def check(self, evs, env, end):
        sym = sym_of(evs)
        got = walked(evs)
        for lo, hi in env.dom[sym]:
            for a, b, v in runs("grapheme", lo, hi):
                if v == -1:
                    continue
                cl = [self.k, v] if self.before else [v, self.k]
                ln = [length(PROBES[self.k]), length(a)] if self.before else [length(a), length(PROBES[self.k])]
                w = boundaries(cl)
                want = [sum(ln)] if len(w) == 1 else ln
                if want != got:
                    return "wrong characters", "U+%04X%s %s U+%04X: bytes %s" % (a, "-U+%04X" % b if b > a else "", "after" if self.before else "before", PROBES[self.k], want), str(got)
        return None


class Words(Body):
    """Every sequence of the given classes' representatives."""
    header = "h.hpp"

    def __init__(self, name, classes, n):
        self.classes, self.len = classes, n
        code = "  static constexpr struct { char b[4]; unsigned n; } reps[] = {%s};\n" % ", ".join("{{%s}, %d}" % (", ".join("static_cast<char>(%d)" % x for x in chr(PROBES[c]).encode()), len(chr(PROBES[c]).encode())) for c in classes)
        code += "  std::array<char, %d> tb; std::size_t tn = 0;\n" % (4 * n)
        code += "  for (int i = 0; i < %d; ++i) { const auto& r = reps[ev_choice(%d)]; for (unsigned k = 0; k < r.n; ++k) tb[tn++] = r.b[k]; }\n" % (n, len(classes))
        code += "  const std::string_view t{tb.data(), tn};\n" + WALK
        super().__init__(name, code, None, splits=[[i, j] for i in range(len(classes)) for j in range(len(classes))], extra=ENCODE, min_parts=len(classes) ** n)

    def check(self, evs, env, end):
        cl = [self.classes[c[0]] for t, c in evs if t == "choice"]
        w, ln = boundaries(cl), [length(PROBES[c]) for c in cl]
        want, i = [], 0
        for k in w:
            want.append(sum(ln[i:i + k]))
            i += k
        got = walked(evs)
        return ("wrong characters", "%s: bytes %s" % (" ".join("U+%04X" % PROBES[c] for c in cl), want), str(got)) if want != got else None


def U03(deep):
    """user-perceived characters of every pair with every code point, and of every sequence of classes"""
    for k in range(15):
        if deep or k in (ANY, ZWJ, RI, PREPEND, L):
            yield Pair(k, True)
        if deep or k in (ANY, EXTEND, PICT, CONTROL):
            yield Pair(k, False)
    yield Words("three", list(range(15)), 3)
    yield Words("emoji", [ANY, CONTROL, EXTEND, ZWJ, RI, PICT], 5)
    yield Words("run", [RI], 37)
    if deep:
        yield Words("four", list(range(15)), 4)
        yield Words("flags", [RI, EXTEND, ZWJ], 8)


class Bytes(Body):
    """Any bytes at all."""
    header = "h.hpp"

    def __init__(self, name, n, log, classes=None, pre=""):
        self.len = n
        cl = classes or [(0, 255)]
        code = "  static constexpr struct { std::uint64_t lo, hi; } cl[] = {%s};\n" % ", ".join("{%d, %d}" % c for c in cl)
        code += "  const std::size_t n = ev_choice(%d);\n  char* b = ev_alloc(n);\n  for (std::size_t i = 0; i < n; ++i) { const auto& c = cl[ev_choice(%d)]; ev_bytes(b + i, 1, c.lo, c.hi); }\n  ev_ro(b);\n  const std::string_view t{b, n};\n" % (n + 1, len(cl))
        sp = [[0]] + [[k] + list(c) for k in range(1, n + 1) for c in itertools.product(range(len(cl)), repeat=min(k, 2))]
        super().__init__(name, code + pre + log, None, splits=sp, extra=ENCODE, min_parts=n)

    def check(self, evs, env, end):
        n = next(c[0] for t, c in evs if t == "choice")
        got = [value(c[0], env) for t, c in evs if t == "piece"]
        if sum(got) != n or (n and 0 in got):
            return "the pieces do not make up the text", "pieces of %d bytes" % n, str(got)
        if any(t == "ok" and value(c[0], env) != 1 for t, c in evs):
            return "pieces out of place, or counted wrong", "in order", str(got)
        return None


POINTS = """  std::size_t n = 0;
  const char* at = t.data();
  for (auto g : u8::code_point::iterator::range(t)) { ev_log("piece", g.size()); ev_log("ok", int(g.data() == at)); at += g.size(); ++n; }
"""
LINES = """  const std::size_t columns = ev_choice(4);
  if (columns == 0) { ev_log("ok", int(u8::line_iterator(t, 0) == u8::line_iterator())); ev_log("piece", t.size()); ev_end(); }
  const char* at = t.data();
  for (auto it = u8::line_iterator{t, columns}; it != u8::line_iterator{}; ++it) {
    const auto g = *it;
    for (auto c : u8::code_point::iterator::range({at, static_cast<std::size_t>(g.data() - at)})) { ev_log("ok", int(u8::is_whitespace(c))); ev_log("piece", c.size()); }
    std::size_t m = 0;
    for (auto c : u8::code_point::iterator::range(g)) { (void)c; ++m; }
    ev_log("ok", int(m == 1 || u8::terminal_width(g) <= columns));
    ev_log("piece", g.size());
    at = g.data() + g.size();
  }
  if (at != t.data() + t.size()) {
    const std::string_view rest{at, static_cast<std::size_t>(t.data() + t.size() - at)};
    ev_log("piece", rest.size());
    for (auto c : u8::code_point::iterator::range(rest)) ev_log("ok", int(u8::is_whitespace(c)));
  }
"""
CHARS = WALK.replace('"cluster"', '"piece"').replace('"place"', '"ok"').replace('"n"', '"ok"')
BYTE_CLASSES = [(0, 0x7f), (0x80, 0xbf), (0xc0, 0xdf), (0xe0, 0xef), (0xf0, 0xff)]


def U04(deep):
    """pieces of any byte string"""
    yield Bytes("points", 4 if not deep else 6, POINTS.replace("std::size_t n = 0", "std::size_t m = 0").replace("++n", "++m"), BYTE_CLASSES)
    yield Bytes("lines", 3 if deep else 2, LINES, BYTE_CLASSES)
    yield Bytes("lines_ascii", 4 if deep else 3, LINES, [(0x61, 0x7a), (0x20, 0x20), (0x21, 0x2f)])
    yield Bytes("chars", 3 if deep else 2, CHARS.replace("std::size_t n = 0", "std::size_t m = 0").replace("++n", "++m").replace("n == u8", "m == u8"), BYTE_CLASSES)


ALL = {"U01": U01, "U02": U02, "U03": U03, "U04": U04}
