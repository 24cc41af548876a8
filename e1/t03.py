"""Help output names every node the way it is typed, with its counts, limits and separator."""
from common import *
from t02 import raw_lit, lit

J = "\u732b"


def has(expr, label, desc="", flat="true"):
    return ("void witness() {\n const auto n = %s; using H = std::decay_t<decltype(n)>::template help_data_type<%s>;\n"
            " static_assert(H::label::get() == std::string_view{%s});\n static_assert(H::description::get() == std::string_view{%s});\n}\n"
            % (expr, flat, raw_lit(label), raw_lit(desc)))


def kids(expr, labels, flat):
    """labels: nested (label, [children])"""
    out = ["void witness() {\n const auto n = %s; using H0 = std::decay_t<decltype(n)>::template help_data_type<%s>;" % (expr, flat)]
    cnt = [0]

    def walk(h, ls):
        out.append(" static_assert(std::tuple_size_v<typename %s::children> == %d);" % (h, len(ls)))
        for i, (l, sub) in enumerate(ls):
            cnt[0] += 1
            g = "H%d" % cnt[0]
            out.append(" using %s = std::tuple_element_t<%d, typename %s::children>;" % (g, i, h))
            out.append(" static_assert(%s::label::get() == std::string_view{%s});" % (g, raw_lit(l)))
            walk(g, sub)
    walk("H0", labels)
    return "\n".join(out) + "\n}\n"


def families(thorough):
    f = Family("T03")
    n = [0]

    def ok(expr, label, desc="", flat="true"):
        n[0] += 1
        f.good("label%03d" % n[0], has(expr, label, desc, flat), "%s is shown as '%s'" % (expr, ascii(label)))

    LS = [('"hello"_S', "--hello"), ('"h"_S', "-h"), ('"hello"_S, "h"_S', "--hello,-h"), ('"h"_S, "hello"_S', "--hello,-h"),
          (lit(J), "-" + J), (lit(J + J) + ", " + lit(J), "--%s,-%s" % (J + J, J)), ('"hello"_S, "h"_S, "the text"_S', "--hello,-h")]
    for s, l in LS:
        d = "the text" if "text" in s else ""
        ok("ar::flag(%s)" % s, l, d)
        ok("ar::counting_flag<int>(%s)" % s, l, d)
        ok("ar::arg<int>(%s)" % s, l + " <Value>", d)
        ok('ar::arg<int>(%s, arp::value_separator_t{"="_S})' % s, l + "=<Value>", d)
        ok('ar::arg<int>(%s, arp::value_separator_t{%s})' % (s, lit("\u2248")), l + "\u2248<Value>", d)
        ok("ar::help(%s)" % s, l, d, "false")
        ok("ar::multi_arg<VI>(%s)" % s, l + " [1,N]", d)
        for a, b in ((1, 3), (2, 2), (2, 10), (1, 100)):
            ok("ar::multi_arg<VI>(%s, arp::min_max_count<%d, %d>)" % (s, a, b), l + (" [%d,%d]" % (a, b) if a != b else " [%d]" % a), d)
        for v, t in (("arp::min_max_value<1, 9>()", "<1-9>"), ("arp::min_max_value<-20, 300>()", "<-20-300>"), ("arp::min_value<5>()", "<5-N>"),
                     ("arp::max_value<5>()", "<-N-5>"), ("arp::max_value<5u>()", "<0-5>"), ("arp::min_value<-7>()", "<-7-N>")):
            ty = "unsigned" if "5u" in v else "int"
            ok("ar::arg<%s>(%s, %s)" % (ty, s, v), l + " " + t, d)
            ok('ar::arg<%s>(%s, %s, arp::value_separator_t{"="_S})' % (ty, s, v), l + "=" + t, d)
    for cnt, t in (("", "[0,N]"), ("arp::min_count<1>", "[1,N]"), ("arp::max_count<7>", "[0,7]"), ("arp::min_max_count<2, 3>", "[2,3]"),
                   ("arp::fixed_count<1>", "[1]"), ("arp::fixed_count<12>", "[12]"), ("arp::min_max_count<0, 1>", "[0,1]"),
                   ("arp::min_max_count<0, 4294967295u>", "[0,4294967295]"), ("arp::min_count<1000000>", "[1000000,N]")):
        for s, nm, d in (('"FILES"_S', "FILES", ""), (lit(J), J, ""), ('"SRC"_S, "the text"_S', "SRC", "the text")):
            ok("ar::positional_arg<VI>(%s%s)" % (s, cnt and ", " + cnt), "<%s> %s" % (nm, t), d)
        if "fixed_count<1>" not in cnt:
            ok('ar::forwarding_arg("--"_S%s)' % (cnt and ", " + cnt), "-- " + t)
    ok('ar::mode("mode1"_S, "descr x"_S, ar::flag("aaa"_S), %s)' % R, "mode1", "descr x", "false")
    for fl in ("true", "false"):
        ok('ar::mode("mode1"_S, ar::flag("aaa"_S), %s)' % R, "mode1", "", fl)
    # integers are rendered exactly
    ints = [0, 1, 7, 9, 10, 11, 19, 20, 99, 100, 101, 999, 1000, 65535, 65536, 2147483647, -1, -9, -10, -99, -100, -2147483647]
    if thorough:
        ints += [10 ** k for k in range(4, 19)] + [10 ** k - 1 for k in range(4, 19)] + [-10 ** k for k in range(3, 19)] + [2 ** 63 - 1, -2 ** 63 + 1]
    for v in ints:
        ty = "int" if -2 ** 31 < v < 2 ** 31 else "std::int64_t"
        suf = "" if ty == "int" else "LL"
        f.good("int.%d" % v, has('ar::arg<%s>("aaa"_S, arp::min_value<(%s)%d%s>())' % (ty, ty, v, suf), "--aaa <%d-N>" % v), "the limit %d is rendered exactly" % v)
        if v >= 0:
            f.good("uint.%d" % v, has('ar::arg<std::uint64_t>("aaa"_S, arp::max_value<std::uint64_t{%du}>())' % v, "--aaa <0-%d>" % v), "the limit %d is rendered exactly" % v)
    f.good("uint.max", has('ar::arg<std::uint64_t>("aaa"_S, arp::max_value<std::uint64_t{18446744073709551615u}>())', "--aaa <0-18446744073709551615>"), "the greatest limit is rendered exactly")
    # the same with C++17's compile-time strings
    for v in ints[::1 if thorough else 2]:
        ty = "int" if -2 ** 31 < v < 2 ** 31 else "std::int64_t"
        code = has('ar::arg<%s>("aaa"_S, arp::min_value<(%s)%dLL>())' % (ty, ty, v), "--aaa <%d-N>" % v)
        f.good("s17.int.%d" % v, re.sub(r'("[^"]*")_S', r'S_(\1){}', code), "the limit %d is rendered exactly (C++17 strings)" % v, CLANGS)
    f.good("enum", has('ar::counting_flag<colour_e>("aaa"_S, arp::min_max_value<colour_e::red, colour_e::blue>())', "--aaa"), "limits of a counting flag")
    # trees
    T = ('ar::root(arp::validation::default_validator, ar::help("help"_S, "h"_S), ar::flag("ver"_S, %s), '
         'ar::mode("mode1"_S, "d"_S, ar::flag("aaa"_S), ar::mode("sub1"_S, ar::flag("bbb"_S), %s), ar::mode("sub2"_S, ar::arg<int>("ccc"_S), %s), %s), '
         'ar::mode(ar::list{ar::flag("eee"_S), ar::flag("fff"_S)}, ard::one_of(arp::required, ar::arg<int>("xxx"_S), ar::flag("yyy"_S), ar::arg<int>("zzz"_S)), '
         'ard::alias_group(arp::required, ar::arg<int>("ppp"_S), ar::arg<int>("qqq"_S)), ar::positional_arg<VI>("POS"_S), %s))') % ((R,) * 5)
    B = ["\u250c ", "\u251c ", "\u2514 "]
    one = [(B[0] + "--xxx <Value>", []), (B[1] + "--yyy", []), (B[2] + "--zzz <Value>", [])]
    agr = [(B[0] + "--ppp <Value>", []), (B[2] + "--qqq <Value>", [])]
    anon_kids = [("--eee", []), ("--fff", []), ("One of: ", one), ("Alias Group: ", agr), ("<POS> [0,N]", [])]
    sub = [("--aaa", []), ("sub1", [("--bbb", [])]), ("sub2", [("--ccc <Value>", [])])]
    full = [("--help,-h", []), ("--ver", []), ("mode1", sub), (" ", anon_kids)]
    top = [("--help,-h", []), ("--ver", []), ("mode1", []), (" ", anon_kids)]
    f.tree_specs = (T, full, top)
    f.good("tree.flat", kids(T, full, "true"), "flattened help shows the whole tree, in order")
    f.good("tree.top", kids(T, top, "false"), "unflattened help shows the top level and the anonymous mode")
    # the oracle can tell a difference
    good = has('ar::arg<int>("hello"_S)', "--hello <Value>")
    f.pair("oracle.label", has('ar::arg<int>("hello"_S)', "--hello"), good, "a wrong label")
    f.pair("oracle.desc", has('ar::arg<int>("hello"_S)', "--hello <Value>", "x"), good, "a wrong description")
    f.pair("oracle.kids", kids(T, full[:-1], "true"), kids(T, full, "true"), "a missing child")
    return f
