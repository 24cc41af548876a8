"""Names that could never be typed (or matched) as one token."""
from common import *

# every White_Space code point (PropList.txt, stable since Unicode 4)
WHITE = [0x9, 0xA, 0xB, 0xC, 0xD, 0x20, 0x85, 0xA0, 0x1680] + list(range(0x2000, 0x200B)) + \
        [0x2028, 0x2029, 0x202F, 0x205F, 0x3000]


def lit(s):
    out = ""
    for b in s.encode("utf8"):
        out += chr(b) if 0x20 < b < 0x7F and chr(b) not in '"\\?' else "\\%03o" % b
    return '"%s"_S' % out


def pol(name, s):
    return raw("[[maybe_unused]] auto p = arp::%s{%s};" % (name, lit(s)))


def families(thorough):
    f = Family("V02")
    # one bare word: whitespace anywhere makes it untypable as one token
    for p in ("long_name_t", "none_name_t", "program_name_t"):
        for i, c in enumerate(WHITE):
            ch = chr(c)
            where = ("middle", "start", "end")
            for k, w in enumerate(where):
                if not thorough and not (i % 3 == k or c in (0x20, 0x3000)):
                    continue
                s = {"middle": "ab%scd", "start": "%sabcd", "end": "abcd%s"}[w]
                f.pair("%s.ws%04x.%s" % (p, c, w), pol(p, s % ch), pol(p, s % "\u732b"),
                       "%s with U+%04X at its %s" % (p, c, w))
        f.pair(p + ".empty", pol(p, ""), pol(p, "ab"), "empty " + p)
        f.pair(p + ".one", pol(p, "a"), pol(p, "ab"), "one character " + p)
        f.pair(p + ".one-wide", pol(p, "\u732b"), pol(p, "\u732b\u732b"), "one multi-byte character " + p)
        f.pair(p + ".one-grapheme", pol(p, "e\u0301"), pol(p, "e\u0301a"),
               "one grapheme cluster of two code points as " + p)
        f.pair(p + ".one-emoji", pol(p, "\U0001F468\u200D\U0001F469\u200D\U0001F467"),
               pol(p, "\U0001F468\U0001F469"), "one emoji ZWJ sequence as " + p)
    for p in ("program_intro_t", "program_addendum_t", "program_version_t"):
        f.pair(p + ".one", pol(p, "a"), pol(p, "ab"), "one character " + p)
        f.pair(p + ".empty", pol(p, ""), pol(p, "ab cd"), "empty " + p)
    for p in ("description_t", "display_name_t", "error_name_t"):
        f.pair(p + ".empty", pol(p, ""), pol(p, "a"), "empty " + p)
    # single characters
    for p in ("short_name_t", "value_separator_t"):
        f.pair(p + ".empty", pol(p, ""), pol(p, "a"), "empty " + p)
        f.pair(p + ".two", pol(p, "ab"), pol(p, "a"), "two character " + p)
        f.pair(p + ".two-wide", pol(p, "\u732b\u732b"), pol(p, "\u732b"), "two multi-byte characters as " + p)
        f.pair(p + ".two-mixed", pol(p, "a\u732b"), pol(p, "\U0001F431"), "a mixed pair as " + p)
        f.pair(p + ".flags", pol(p, "\U0001F1EC\U0001F1E7\U0001F1EB\U0001F1F7"),
               pol(p, "\U0001F1EC\U0001F1E7"), "two flag emoji as " + p)
        f.pair(p + ".combining", pol(p, "e\u0301e"), pol(p, "e\u0301"), "two grapheme clusters as " + p)
        f.pair(p + ".crlf", pol(p, "\r\r"), pol(p, "="), "two carriage returns as " + p)
    for c in WHITE:
        f.pair("value_separator_t.ws%04x" % c, pol("value_separator_t", chr(c)),
               pol("value_separator_t", "="), "U+%04X as a value separator" % c)
    f.pair("short_name_t.prefix", pol("short_name_t", "-"), pol("short_name_t", "="),
           "a short name that, with its prefix, is the long prefix")
    f.pair("token_end_marker_t.empty", raw("[[maybe_unused]] auto p = arp::token_end_marker_t{%s};" % lit("")),
           raw("[[maybe_unused]] auto p = arp::token_end_marker_t{%s};" % lit("--")), "empty token end marker")
    # the same rules through the string-to-policy mapping of the node factories
    f.pair("flag.space", anon('ar::flag("hel lo"_S)'), anon('ar::flag("hello"_S)'),
           "a flag whose long name has a space")
    f.pair("arg.space", anon('ar::arg<int>("hel lo"_S)'), anon('ar::arg<int>("hello"_S)'),
           "an argument whose long name has a space")
    f.pair("mode.space", tree(mode('"mo de"_S', 'ar::flag("hello"_S)')),
           tree(mode('"mode"_S', 'ar::flag("hello"_S)')), "a mode whose name has a space")
    f.pair("flag.dash", anon('ar::flag("-"_S)'), anon('ar::flag("="_S)'), "a flag whose short form is the long prefix")
    f.pair("help.tab", tree('ar::help("help"_S, "h"_S, "a\\tb"_S)', mode('ar::flag("hello"_S)')),
           tree('ar::help("help"_S, "h"_S, "a b"_S)', mode('ar::flag("hello"_S)')),
           "a description with a tab (it cannot be laid out)")
    f.pair("help.tab2", tree('ar::help("help"_S, "h"_S)', mode('ar::flag("hello"_S, "a\\tb"_S)')),
           tree('ar::help("help"_S, "h"_S)', mode('ar::flag("hello"_S, "a b"_S)')),
           "a nested description with a tab")
    for s in ("-a", "--a", "a-b", "_a", "a=b", "\u0e41\u0e21\u0e27", "\u043a\u0456\u0442"):
        f.good("long_name_t.%s" % "".join("%x." % ord(c) for c in s), pol("long_name_t", s), "legal long name " + ascii(s))
    for s in ("a", "\u732b", "\U0001F431", "=", "+", "\U0001F468\u200D\U0001F469\u200D\U0001F467"):
        f.good("short_name_t.%s" % "".join("%x." % ord(c) for c in s), pol("short_name_t", s), "legal short name " + ascii(s))
    return f
