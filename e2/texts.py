"""Help output: what it must contain and how it must be laid out, for every terminal and every setting of the switches."""
import unicodedata
from bodies import Body, text
from model import Node, INF


def width(s):
    return sum(0 if unicodedata.category(c) in ("Mn", "Me") else 2 if unicodedata.east_asian_width(c) in "WF" else 1 for c in s)


class E:
    """An entry: a leaf, a group or a mode."""
    def __init__(self, what, desc="", enable=None, name=None, children=(), required=False, router=False):
        self.leaf = what if isinstance(what, Node) else None
        self.kind = what if not self.leaf else "leaf"
        self.desc, self.enable, self.name, self.children, self.required, self.router = desc, enable, name, list(children), required, router
        if self.leaf:
            self.leaf.enable = enable
            if desc:
                self.leaf.extra.append('arp::description_t{"%s"_S}' % desc)
            if router:
                self.leaf.extra.append("arp::router{[](auto&&...) {}}")

    def cpp(self):
        if self.leaf:
            return self.leaf.cpp()
        ch = [c.cpp() for c in self.children]
        if self.kind in ("one_of", "alias_group"):
            return "ard::%s(%s)" % (self.kind, ", ".join(ch + ["arp::required"]))
        p = ['"%s"_S' % self.name] if self.name else []
        if self.desc:
            p.append('"%s"_S' % self.desc)
        if self.enable:
            p.append("arp::runtime_enable<>{%s}" % self.enable)
        return "ar::mode(%s)" % ", ".join(p + ch + ["arp::router{[](auto&&...) {}}"])

    def label(self):
        L = self.leaf
        if self.kind == "mode":
            return self.name or " "
        if self.kind == "one_of":
            return "One of: "
        if self.kind == "alias_group":
            return "Alias Group: "
        if L.kind == "positional":
            return "<%s> %s" % (L.disp, self.counts())
        o = ",".join((["--" + L.long] if L.long else []) + (["-" + L.short] if L.short else [])) or L.none
        val = "<Value>"
        if L.lim:
            lo, hi, _ = L.lim
            val = "<%s-%s>" % (lo if lo is not None else "0" if L.num[0].startswith("std::u") else "-N", hi if hi is not None else "N")
        if L.sep:
            o += L.sep + val
        elif L.kind == "arg":
            o += " " + val
        if L.kind in ("multi", "forwarding"):
            o += " " + self.counts()
        return o

    def counts(self):
        a, b = self.leaf.min, self.leaf.max
        return "[%d]" % a if a == b else "[%d,%s]" % (a, "N" if b >= INF else b)


class Help:
    """The help node's texts."""
    def __init__(self, name=None, version=None, intro=None, addendum=None, flatten=False, desc="Display this help", enable=None, fmt=None, indent=4, offset=8, colour=False):
        self.fmt, self.indent, self.offset, self.colour = fmt, indent, offset, colour
        self.name, self.version, self.intro, self.addendum, self.flatten, self.desc = name, version, intro, addendum, flatten, desc
        self.router = None
        self.label_ = "--help,-h"

    def cpp(self):
        p = ['"help"_S, "h"_S, "%s"_S' % self.desc]
        for k, f in (("name", "program_name_t"), ("version", "program_version_t"), ("intro", "program_intro_t"), ("addendum", "program_addendum_t")):
            if getattr(self, k):
                p.append('arp::%s{"%s"_S}' % (f, getattr(self, k)))
        if self.flatten:
            p.append("arp::flatten_help")
        if self.fmt:
            p.append(self.fmt)
        if self.router:
            p.append(self.router)
        return "ar::help(%s)" % ", ".join(p)


class HelpEntry:
    children, enable, kind, leaf = (), None, "help", None

    def __init__(self, h):
        self.h, self.desc = h, h.desc

    def label(self):
        return self.h.label_


def rows(entries, flatten, depth, on, out):
    """(depth, label, description) of everything shown; on(entry) says whether it is enabled."""
    for e in entries:
        if not on(e):
            continue
        out.append((depth, e.label(), e.desc))
        if e.kind == "mode" and (flatten or not e.name):
            rows(e.children, flatten, depth + 1, on, out)
        if e.kind in ("one_of", "alias_group"):
            sub = []
            rows(e.children, flatten, depth + 1, on, sub)
            for i, (d, l, t) in enumerate(sub):
                bar = "" if len(sub) < 2 else "\u250c " if i == 0 else "\u2514 " if i == len(sub) - 1 else "\u251c "
                out.append((d, bar + l, t))
    return out


def column(rs, h):
    return h.indent + max([0] + [h.indent * d + width(l) for d, l, _ in rs])


RED, GREEN, RESET = "\033[31m", "\033[32m", "\033[0m"


def uncoloured(body, rs, h):
    """The body without its colours, after checking that labels are red, descriptions green and everything else plain."""
    colour, out, seen = None, "", []
    i = 0
    while i < len(body):
        for c in (RED, GREEN, RESET):
            if body.startswith(c, i):
                colour = c
                i += len(c)
                break
        else:
            if body[i] == "\033":
                return "an unknown colour", "red, green or reset", repr(body[i:i + 8])
            out += body[i]
            seen.append(colour)
            i += 1
    if colour != RESET:
        return "the colour is not reset at the end", "a reset", repr(body[-20:])
    at = 0
    for depth, label, desc in rs:
        for want, t in ((RED, label), (GREEN, desc)):
            for c in t:
                if c == " ":
                    continue
                while at < len(out) and out[at] in " \n":
                    at += 1
                if at >= len(out) or out[at] != c:
                    return out  # the layout will say what is wrong
                if seen[at] != want:
                    return "%r is not in its colour" % t, repr(want), repr(seen[at])
                at += 1
    return out


def layout(got, rs, col, h, cols):
    """None or (why, expected, found); cols None: no terminal."""
    head = ""
    if h.name:
        head += h.name + (" " + h.version if h.version else "") + "\n\n"
    if h.intro:
        head += h.intro + "\n\n"
    tail = "\n" + h.addendum + "\n" if h.addendum else ""
    if not got.startswith(head):
        return "the preamble is wrong", repr(head), repr(got[:80])
    if not got.endswith(tail):
        return "the addendum is wrong", repr(tail), repr(got[-80:])
    body = got[len(head):len(got) - len(tail)]
    if h.colour:
        bad = uncoloured(body, rs, h)
        if isinstance(bad, tuple):
            return bad
        body = bad
    if body and not body.endswith("\n"):
        return "the last line does not end", "a newline", repr(body[-40:])
    lines = body.split("\n")[:-1]
    wrap = cols is not None and cols >= col + h.offset
    room = cols - col if wrap else None
    i = 0
    for depth, label, desc in rs:
        start = " " * (h.indent * depth) + label
        if i >= len(lines):
            return "an enabled entry is missing", repr(label), "the output ends"
        if not lines[i].startswith(start) or (not desc and lines[i] != start):
            return "an entry is missing or differs", repr(start), repr(lines[i])
        if not desc:
            i += 1
            continue
        chunk = lines[i][len(start):]
        pad = col - h.indent * depth - width(label)
        if chunk[:pad].strip(" ") or len(chunk) <= pad:
            return "a description does not start in the common column", "%d spaces behind %r" % (pad, label), repr(lines[i])
        chunk = chunk[pad:]
        rest = desc
        while True:
            if not rest.startswith(chunk) or not chunk:
                return "a description is altered", repr(rest), repr(chunk)
            rest = rest[len(chunk):]
            if wrap and width(chunk.rstrip(" ")) > room and len(chunk) > 1:
                return "a line is wider than the terminal", "at most %d columns" % cols, "%d columns: %r" % (col + width(chunk), lines[i])
            i += 1
            spaced = rest.startswith(" ")
            rest = rest.lstrip(" ")
            if not rest:
                break
            if not wrap:
                return "a description is broken although it must not be", repr(desc), repr(chunk)
            word = rest.split(" ")[0]
            last = chunk.split(" ")[-1]
            if all(width(c) == 1 for c in chunk + word):
                if not spaced and not chunk.endswith(" ") and width(last + word) <= room and width(last) < width(chunk):
                    return "a word is broken that fits a line", repr(last + word), repr(chunk)
                if not spaced and not chunk.endswith(" ") and width(last) == width(chunk) and width(last + word) <= room:
                    return "a word is broken that fits a line", repr(last + word), repr(chunk)
                if (spaced or chunk.endswith(" ")) and width(chunk.rstrip(" ")) + 2 + width(word) <= room:
                    return "a line is broken too early", repr(chunk + word), repr(chunk)
            if i >= len(lines) or lines[i][:col].strip(" ") or len(lines[i]) <= col:
                return "a broken description does not continue in its column", "%d spaces and %r" % (col, rest), repr(lines[i]) if i < len(lines) else "the output ends"
            chunk = lines[i][col:]
    if i != len(lines):
        return "an entry that must not be there", "nothing more", repr(lines[i])
    return None


class HelpCase(Body):
    """The help text of a tree; targets: what may follow --help on the command line (None: help() of the router)."""
    def __init__(self, name, h, entries, bools=0, targets=None, max_targets=2, exits=False):
        self.exits = exits
        self.h, self.entries, self.bools, self.targets = h, [HelpEntry(h)] + list(entries), bools, targets
        o = ["  const bool b%d = ev_choice(2);" % i for i in range(bools)]
        if targets is not None:
            h.router = None if exits else 'arp::router{[](std::ostringstream s) { ev_sv("text", s.str()); }}'
        o.append("  const auto r = ar::root(arp::validation::default_validator, arp::exception_translator<codes>,\n    %s);" % ",\n    ".join([h.cpp()] + [e.cpp() for e in entries]))
        if targets is None:
            o.append("  std::ostringstream s;\n  if (ev_choice(2)) { ev_sv(\"text\", r.help()); } else { r.help(s); ev_sv(\"text\", s.str()); }")
            sp = [[0, 0], [0, 1], [1, 0], [1, 1]]
        else:
            if exits:
                o.append("  open_cout();")
            o.append('  auto args = std::vector<std::string_view>{ev_choice(2) ? "--help" : "-h"};')
            o.append("  static constexpr std::string_view words[] = {%s};" % ", ".join('"%s"' % t for t in targets))
            o.append("  const unsigned n = ev_choice(%d);" % (max_targets + 1))
            o.append("  for (unsigned i = 0; i < n; ++i) args.push_back(words[ev_choice(%d)]);" % len(targets))
            o.append('  try { r.parse(args); ev_log("ok"); } catch (const ar::parse_exception& e) { ev_sv("err", e.what()); }')
            sp = [[a, b] for a in (0, 1) for b in range(max_targets + 1)]
        pre = [[]]
        for _ in range(bools):
            pre = [p + [b] for p in pre for b in (0, 1)]
        super().__init__(name, "\n".join(o), self.check, splits=[p + q for p in pre for q in sp], min_parts=4, defines=["HELP_EXITS"] if exits else [])

    def on(self, bools):
        return lambda e: e.enable is None or bool(bools[int(e.enable[1:])])

    def check(self, evs, env, end):
        it = iter(evs)
        nxt = lambda t: next(c for k, c in it if k == t)[0]
        bools = [nxt("choice") for _ in range(self.bools)]
        path = None
        if self.targets is None:
            nxt("choice")
        if self.targets is not None:
            nxt("choice")
            path = [self.targets[nxt("choice")] for _ in range(nxt("choice"))]
        cols = []
        out = []
        for k, c in it:
            if k == "choice":
                cols.append(None)
            elif k == "sym":
                cols[-1] = env.dom[c[0]]
            else:
                out.append((k, c))
        if path is None:
            if [k for k, _ in out] != ["text$"]:
                return "no help text", "a text", str([k for k, _ in out])
            return self.one(text(out[0][1]), self.entries, self.h.flatten, 1, bools, cols[0])
        here, flat, depth = self.entries, self.h.flatten, 1
        node = None
        for w in path:
            m = [e for e in here if self.names(e, w)]
            if not m or not self.on(bools)(m[0]):
                return self.rejected(out, w)
            node = m[0]
            here = node.children
        if [(k, c if k == "exit" else 0) for k, c in out] != [("text$", 0), ("exit", [0]) if self.exits else ("ok", 0)]:
            return "no help text", "the help text of %s" % (path or "the root"), "%s" % [(k, text(c) if k.endswith("$") else c) for k, c in out]
        got = text(out[0][1])
        if node is None:
            return self.one(got, self.entries, self.h.flatten, 1, bools, cols[0])
        return self.one(got, [node], True, 0, bools, cols[0])

    def names(self, e, w):
        if e.kind == "mode":
            return e.name == w
        if e.kind == "help":
            return w in ("--help", "-h")
        L = e.leaf
        if L is None:
            return False
        return w in ([] + (["--" + L.long] if L.long else []) + (["-" + L.short] if L.short else []) + ([L.none] if L.none else []))

    def rejected(self, out, w):
        want = "unknown_argument:%s" % w
        got = [text(c) for k, c in out if k == "err$"]
        return None if got and got[0].startswith("unknown_argument") and got[0].split(":", 1)[1].split("|")[0] == w else ("an unknown target is not rejected", want, str(out and [(k, text(c) if k.endswith("$") else c) for k, c in out]))

    def one(self, got, entries, flat, depth, bools, cols):
        everything = rows(entries, flat, depth, lambda e: True, [])
        col = column(everything, self.h)
        shown = rows(entries, flat, depth, self.on(bools), [])
        if got is None:
            return "the text depends on something unknown", "fixed text", "unknown bytes"
        if cols is None:
            return layout(got, shown, col, self.h, None)
        pts = set()
        for lo, hi in cols:
            pts |= {lo, hi} | {x for x in (col + self.h.offset + d for d in (-1, 0, 1)) if lo <= x <= hi}
        for p in sorted(pts):
            bad = layout(got, shown, col, self.h, p)
            if bad:
                return bad[0], bad[1] + " (terminal of %d columns)" % p, bad[2]
        return None


def F(*n, **k):
    return Node("flag", *n, **k)


def A(*n, **k):
    return Node("arg", *n, **k)


def simple(**k):
    common = lambda: [E(F("force", "f"), "Force overwrite existing files"), ]
    return [E("mode", "Copy source files to destination", name="copy", children=common() + [E(Node("positional", disp="DST", required=True, min=1, max=1), "Destination directory"), E(Node("positional", disp="SRC", required=True, min=1), "Source file paths")]),
            E("mode", "Move source file to destination", name="move", children=common() + [E(Node("positional", disp="DST", required=True, min=1, max=1), "Destination directory"), E(Node("positional", disp="SRC", required=True, min=1, max=1), "Source file path")])]


I64 = ("std::int64_t", (0, (1 << 64) - 1))
U64 = ("std::uint64_t", (0, (1 << 64) - 1))


def H01(deep):
    """help output names every enabled entry once, in order, with its description, for every terminal and switch setting"""
    full = dict(name="simple", version="v0.1", intro="A simple file copier.", addendum="An example.")
    yield HelpCase("readme", Help(flatten=True, **full), simple())
    yield HelpCase("readme_top", Help(**full), simple())
    yield HelpCase("switched", Help(name="rt", flatten=True), [
        E(F("version"), "Output version", router=True),
        E("mode", "Advanced features", name="advanced", enable="b0", children=[E(F("feature1"), "First"), E(A("feature2", default="x"), "Second", enable="b1")]),
        E("mode", children=[E(F("foo", "f"), "Foo flag"), E(A("bar", "b"), "Licensed foo", enable="b0")])], bools=2)
    yield HelpCase("groups", Help(), [
        E("mode", children=[E("one_of", children=[E(F("alpha", "a"), "First"), E(A("bravo"), "Second", enable="b0"), E(A("charlie", "c"), "Third", enable="b1")]),
                            E(F("kilo"), "Between"),
                            E("alias_group", children=[E(A("delta"), "Fourth"), E(A("echo"), "Fifth", enable="b2")])])], bools=3)
    yield HelpCase("kinds", Help(name="kinds", addendum="That is all"), [
        E("mode", children=[E(A("equals", "e", sep="="), "With a separator"), E(A("limits", num=I64, lim=(-10, 100, "ct")), "Limited"), E(A("least", num=U64, lim=(None, 20, "ct")), "At most"),
                            E(A("low", "l", num=I64, lim=(7, None, "ct")), "At least"), E(A(None, "s"), "Short only"), E(Node("count", "very", "v"), "Counted"),
                            E(Node("multi", "list", "i", min=2, max=2), "A pair"), E(F("plain")), E(Node("positional", disp="POS", min=0, max=3), "Some")])])
    yield HelpCase("lists", Help(name="lists"), [
        E("mode", "Named", name="named", children=[E(F("alpha"), "One"), E(Node("multi", "rest", min=1, max=10), "Up to ten")]),
        E("mode", "Named too", name="other", children=[E(Node("positional", disp="ONE", min=1, max=1, required=True), "One"), E(Node("positional", disp="MANY", min=2), "Many")])])
    yield HelpCase("lists_flat", Help(flatten=True, addendum="End"), [
        E("mode", "Named", name="named", children=[E(F("alpha"), "One"), E(Node("multi", "rest", min=1, max=10), "Up to ten")]),
        E("mode", "Named too", name="other", children=[E(Node("positional", disp="ONE", min=1, max=1, required=True), "One"), E(Node("positional", disp="MANY", min=2), "Many")])])
    yield HelpCase("unicode", Help(name="just-cats", intro="Prints cats!"), [
        E(F("cat"), "English cat", router=True), E(F(None, "\u732b"), "\u65e5\u672c\u8a9e\u306e\u732b", router=True), E(F("\u0e41\u0e21\u0e27"), "\u0e41\u0e21\u0e27\u0e44\u0e17\u0e22", router=True),
        E(F("\u043a\u0456\u0442"), "\u0443\u043a\u0440\u0430\u0457\u043d\u0441\u044c\u043a\u0438\u0439 \u043a\u0456\u0442", router=True)])
    yield HelpCase("nested", Help(flatten=True), [
        E("mode", "Outer", name="one", children=[E(F("alpha"), "A"), E("mode", "Middle", name="two", enable="b0", children=[E(F("bravo"), "B", enable="b1"), E("mode", "Inner", name="three", children=[E(F("charlie"), "C")])])]),
        E("mode", "Other", name="four", children=[E(F("delta"))])], bools=2)
    if deep:
        yield HelpCase("nested_top", Help(), [
            E("mode", "Outer", name="one", children=[E(F("alpha"), "A"), E("mode", "Middle", name="two", enable="b0", children=[E(F("bravo"), "B", enable="b1")])]),
            E("mode", children=[E(F("delta"), enable="b1"), E(F("echo"), "E")])], bools=2)


I18 = lambda n: "ar::traits::integral_constant<std::size_t{%d}>" % n


def H04(deep):
    """coloured and differently indented help"""
    full = dict(name="simple", version="v0.1", intro="A simple file copier.", addendum="An example.")
    yield HelpCase("colour", Help(fmt="arp::colour_help_formatter", colour=True, flatten=True, **full), simple())
    yield HelpCase("colour_switched", Help(fmt="arp::colour_help_formatter_t<%s, %s>{}" % (I18(1), I18(4)), indent=1, offset=4, colour=True), [
        E("mode", children=[E("one_of", children=[E(F("alpha", "a"), "First", enable="b0"), E(A("bravo"), "Second", enable="b1")]), E(F("kilo")), E(Node("count", None, "v"), "words to be wrapped")])], bools=2)
    yield HelpCase("indent", Help(fmt="arp::default_help_formatter_t<%s>{}" % I18(2), indent=2, offset=4, flatten=True, **full), simple())
    yield HelpCase("offset", Help(fmt="arp::default_help_formatter_t<%s, %s>{}" % (I18(3), I18(20)), indent=3, offset=20, desc="Words that are wrapped where it is worth it"), [E(F("alpha"), "A few other words", router=True, enable="b0")], bools=1)
    yield HelpCase("fixed", Help(fmt="fixed<arp::default_help_formatter_t<>>{}", flatten=True, **full), simple())
    yield HelpCase("fixed_colour", Help(fmt="fixed<arp::colour_help_formatter_t<%s>>{}" % I18(2), indent=2, offset=4, colour=True, name="nn", addendum="aa"), [
        E("mode", children=[E("one_of", children=[E(F("alpha", "a"), "First words"), E(A("bravo"), "Second")]), E(F("kilo")), E(Node("count", None, "v"), "words to be wrapped")])])
    if deep:
        yield HelpCase("colour_groups", Help(fmt="arp::colour_help_formatter", colour=True, name="x"), [
            E("mode", children=[E("one_of", children=[E(F("alpha", "a"), "First"), E(A("bravo"), "Second", enable="b0"), E(A("charlie", "c"), "Third", enable="b1")]),
                                E(F("kilo"), "Between"),
                                E("alias_group", children=[E(A("delta"), "Fourth"), E(A("echo"), "Fifth", enable="b2")])])], bools=3)


def H02(deep):
    """descriptions are wrapped to the terminal, for every width"""
    T = "The quick brown fox jumps over the lazy dog and some more words"
    yield HelpCase("words", Help(desc=T), [])
    yield HelpCase("long_words", Help(), [E(F("alpha"), "Supercalifragilisticexpialidocious words among incomprehensibilities x", router=True)])
    yield HelpCase("wide", Help(), [E(F("alpha"), "\u3053\u306e\u30d8\u30eb\u30d7\u3092\u8868\u793a\u3057\u3066\u7d42\u4e86", router=True)])
    yield HelpCase("mixed", Help(), [E(F(None, "\u732b"), "cats \u732b and \u0430\u0431\u0432\u0433 words e\u0301e\u0301e\u0301 end", router=True)])
    yield HelpCase("levels", Help(flatten=True, desc="Words at the top of it"), [
        E("mode", "Some words for the mode", name="mm", children=[E(F("alpha", "a"), "Some more words for a flag", enable="b0"), E(A("bravo"), "One")])], bools=1)
    yield HelpCase("spaces", Help(), [E(F("alpha"), "a b c d e f g h i j k l m n o p", router=True), E(F("bravo"), "aaaa bbbbbbbb cc dddddddddd", router=True)])
    yield HelpCase("one_long", Help(), [E(F("alpha"), "abcdefghijklmnopqrstuvwxyz0123", router=True)])


def H03(deep):
    """help for a target shows that part of the tree, and only an enabled one"""
    yield HelpCase("readme", Help(name="simple"), simple(), targets=["copy", "move", "--force", "xx", "co", "-f"])
    yield HelpCase("switched", Help(flatten=True), [
        E("mode", "Outer", name="one", enable="b0", children=[E(F("alpha", "a"), "A", enable="b1"), E("mode", "Inner", name="two", children=[E(F("bravo"), "B")])]),
        E("mode", "Other", name="three", children=[E(A("delta", sep="="), "D")])], bools=2, targets=["one", "two", "three", "--alpha", "-a", "--delta"])
    yield HelpCase("exits", Help(name="nn"), simple()[:1] + [E(F("version", "v"), "V", router=True, enable="b0")], bools=1, targets=["copy", "--version", "xx"], exits=True)
    yield HelpCase("exits_fixed", Help(name="nn", fmt="fixed<arp::default_help_formatter_t<>>{}"), simple()[:1] + [E(F("version", "v"), "V", router=True)], targets=["copy", "--version", "xx"], exits=True)
    yield HelpCase("top", Help(), [E(F("version", "v"), "V", router=True, enable="b0"), E("mode", "Only", name="mm", children=[E(F("kilo"), "K")])], bools=1, targets=["--version", "-v", "mm", "--help", "--kilo", "version"])
    yield HelpCase("anonymous", Help(), [E("mode", "Named", name="mm", children=[E(F("alpha"), "A")]), E("mode", children=[E(F("bravo"), "B"), E(Node("positional", disp="POS", min=0, max=1), "P")])], targets=["mm", "--bravo", "POS", "--alpha", "", "--"])
    if deep:
        yield HelpCase("deep", Help(flatten=True), [
            E("mode", "M1", name="m1", children=[E("mode", "M2", name="m2", children=[E("mode", "M3", name="m3", enable="b0", children=[E(F("leaf"), "L")]), E(F("side"), "S")]), E(F("alpha"), "A")])],
            bools=1, targets=["m1", "m2", "m3", "--leaf", "--side"], max_targets=4)
