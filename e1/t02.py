"""Bare strings become the documented policies, whatever their order and script."""
from common import *
import itertools

J = "\u732b"            # three bytes
E = "\U0001F468\u200D\U0001F469\u200D\U0001F467"   # one character of five code points
C = "e\u0301"           # one character of two code points


def lit(s):
    return '"%s"_S' % "".join(chr(b) if 0x20 <= b < 0x7F and chr(b) not in '"\\?' else "\\%03o" % b for b in s.encode("utf8"))


def raw_lit(s):
    return '"%s"' % "".join(chr(b) if 0x20 <= b < 0x7F and chr(b) not in '"\\?' else "\\%03o" % b for b in s.encode("utf8"))


def check(expr, want):
    """want: method -> text, or None if the node must not have it."""
    out = " const auto n = %s; using N = std::decay_t<decltype(n)>;\n" % expr
    for m, s in want.items():
        if s is None:
            out += " static_assert(!ar::traits::has_%s_method_v<N>);\n" % m
        else:
            out += " static_assert(N::%s() == std::string_view{%s});\n" % (m, raw_lit(s))
    return "void witness() {\n%s}\n" % out


def wrong(expr, want, key):
    w = dict(want)
    w[key] = (w[key] + "x") if w[key] is not None else "x"
    if want[key] is None:
        return None
    return check(expr, w)


def families(thorough):
    f = Family("T02")
    long_short = {
        "flag": "ar::flag(%s)", "arg": "ar::arg<int>(%s)", "count": "ar::counting_flag<int>(%s)",
        "multi": "ar::multi_arg<VI>(%s)", "help": "ar::help(%s)",
    }
    texts = [("hello", "h", "some words"), (J + J, J, J + " " + J), ("hello", E, "x" + E), (E + "a", C, "words " + C), ("ab", "=", "de")]

    def add(name, expr, want):
        f.good(name, check(expr, want), "%s has %s" % (expr, want))

    for n, fmt in long_short.items():
        for ti, (l, s, d) in enumerate(texts):
            items = {"L": l, "S": s, "D": d}
            seen = set()
            for k in range(1, 4):
                for perm in itertools.permutations("LSD", k):
                    if "L" not in perm and "D" in perm:
                        continue
                    if "L" in perm and "D" in perm and perm.index("D") < perm.index("L"):
                        continue            # the first long string is the name by definition
                    if not ("L" in perm or "S" in perm):
                        continue
                    want = {"long_name": l if "L" in perm else None, "short_name": s if "S" in perm else None,
                            "description": d if "D" in perm else None, "none_name": None, "display_name": None}
                    add("%s.%d.%s" % (n, ti, "".join(perm)), fmt % ", ".join(lit(items[x]) for x in perm), want)
        # strings among policies
        P = 'arp::error_name_t{"EE"_S}'
        for k in range(4):
            args = [lit("hello"), lit("h"), lit("a b")]
            args.insert(k, P)
            add("%s.mixed%d" % (n, k), fmt % ", ".join(args),
                {"long_name": "hello", "short_name": "h", "description": "a b", "error_name": "EE"})
        # explicit spelling is equivalent
        add("%s.explicit" % n, fmt % 'arp::description_t{"a b"_S}, arp::short_name_t{"h"_S}, arp::long_name_t{"hello"_S}',
            {"long_name": "hello", "short_name": "h", "description": "a b", "none_name": None, "display_name": None})
        # nothing is silently dropped
        f.pair(n + ".three-long", raw("auto n = " + fmt % '"aaa"_S, "bbb"_S, "ccc"_S' + ";"), raw("auto n = " + fmt % '"aaa"_S, "bbb"_S' + ";"),
               "a third long string has no meaning")
        f.pair(n + ".two-short", raw("auto n = " + fmt % '"a"_S, "b"_S' + ";"), raw("auto n = " + fmt % '"a"_S, "bb"_S' + ";"),
               "a second single character has no meaning")
        f.pair(n + ".four", raw("auto n = " + fmt % '"aaa"_S, "b"_S, "ccc"_S, "d"_S' + ";"), raw("auto n = " + fmt % '"aaa"_S, "b"_S, "ccc"_S' + ";"),
               "a fourth string has no meaning")
    for ti, (l, s, d) in enumerate(texts):
        for a, b in ((l, d), (s, d), (l, s), (d, l)):
            if " " in a:
                continue
            add("pos.%d.%d" % (ti, len(f.ws)), "ar::positional_arg<VI>(%s, %s)" % (lit(a), lit(b)),
                {"display_name": a, "description": b, "long_name": None, "short_name": None, "none_name": None})
            if a in (s,):
                continue
            add("mode.%d.%d" % (ti, len(f.ws)), "ar::mode(%s, %s, ar::flag(\"fff\"_S), %s)" % (lit(a), lit(b), R),
                {"none_name": a, "description": b, "long_name": None, "short_name": None, "display_name": None})
        add("fwd.%d" % ti, "ar::forwarding_arg(%s, %s)" % (lit(l), lit(d)),
            {"none_name": l, "description": d, "long_name": None, "short_name": None, "display_name": None})
    add("pos.one", "ar::positional_arg<VI>(%s)" % lit("FILES"), {"display_name": "FILES", "description": None})
    add("mode.anon", 'ar::mode(ar::flag("fff"_S), %s)' % R, {"none_name": None, "description": None, "long_name": None})
    add("mode.late", 'ar::mode(ar::flag("fff"_S), %s, "name"_S, "descr"_S)' % R, {"none_name": "name", "description": "descr"})
    f.pair("pos.three", raw('auto n = ar::positional_arg<VI>("aaa"_S, "bbb"_S, "ccc"_S);'), raw('auto n = ar::positional_arg<VI>("aaa"_S, "bbb"_S);'),
           "a third string has no meaning")
    f.pair("mode.three", raw('auto n = ar::mode("aaa"_S, "bbb"_S, "ccc"_S, ar::flag("fff"_S), %s);' % R), raw('auto n = ar::mode("aaa"_S, "bbb"_S, ar::flag("fff"_S), %s);' % R),
           "a third string has no meaning")
    f.pair("fwd.short", raw('auto n = ar::forwarding_arg("aaa"_S, "b"_S);'), raw('auto n = ar::forwarding_arg("aaa"_S, "bb"_S);'),
           "a forwarding argument has no short name")
    # the oracle itself can tell a difference
    f.pair("oracle", check('ar::flag("hello"_S, "h"_S)', {"long_name": "hullo"}), check('ar::flag("hello"_S, "h"_S)', {"long_name": "hello"}), "a wrong expectation")
    # values survive the mapping: other policies keep their state and position
    return f
