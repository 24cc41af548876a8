"""Counts and positions: every token must have exactly one owner."""
from common import *

POS = lambda n, cnt="", vt="VI": 'ar::positional_arg<%s>("%s"_S%s)' % (vt, n, cnt and ", " + cnt)
MUL = lambda n, cnt="": 'ar::multi_arg<VI>("%s"_S%s)' % (n, cnt and ", " + cnt)
FWD = lambda n, cnt="": 'ar::forwarding_arg("%s"_S%s)' % (n, cnt and ", " + cnt)
FIX2 = "arp::fixed_count<2>"
A, B, C = 'ar::arg<int>("aaa"_S)', 'ar::flag("bbb"_S)', 'ar::counting_flag<int>("ccc"_S)'
TEM = 'arp::token_end_marker_t{"end"_S}'


def families(thorough):
    f = Family("V04")
    ctx = {
        "anon": lambda *ch: anon(*ch),
        "named": lambda *ch: tree(mode('"mode1"_S', *ch)),
        "nested": lambda *ch: tree(mode('"mode1"_S', A, mode('"mode2"_S', *ch))),
        "second": lambda *ch: tree(mode('"mode1"_S', A), mode('"mode2"_S', *ch)),
    }
    for cn, t in ctx.items():
        # a positional swallows what follows it, so nothing may follow but positionals
        for k, other in (("arg", A), ("flag", B), ("count", C), ("multi", MUL("mmm", FIX2)),
                         ("fwd", FWD("--", FIX2)),
                         ("one_of", 'ard::one_of(arp::required, ar::arg<int>("xxx"_S), ar::flag("yyy"_S))'),
                         ("alias_group", 'ard::alias_group(arp::required, ar::arg<int>("xxx"_S), ar::arg<int>("yyy"_S))')):
            f.pair("pos-first.%s.%s" % (cn, k), t(POS("pos", FIX2), other), t(other, POS("pos", FIX2)),
                   "a positional argument before a labelled sibling")
            f.pair("pos-mid.%s.%s" % (cn, k), t(A if k != "arg" else B, POS("pos", FIX2), other),
                   t(A if k != "arg" else B, other, POS("pos", FIX2)), "a positional argument between labelled siblings")
        f.pair("pos-sandwich.%s" % cn, t(POS("pos", FIX2), A, POS("qqq", FIX2)), t(A, POS("pos", FIX2), POS("qqq", FIX2)),
               "a labelled sibling between two positional arguments")
        # only the last sibling may take an open-ended number of tokens
        V = {"pos": POS("vvv"), "multi": MUL("www"), "fwd": FWD("--")}
        for x in V:
            for y in V:
                if x == y:
                    continue
                if x == "pos":
                    continue            # position rule, above
                f.pair("two-open.%s.%s-%s" % (cn, x, y), t(V[x], V[y]), t(A, V[y]), "two open-ended siblings")
            f.pair("same-open.%s.%s" % (cn, x), t(V[x], V[x].replace("vvv", "uuu").replace("www", "ttt").replace("--", "---")),
                   t(V[x]), "two open-ended siblings of one kind")
        for x in ("multi", "fwd"):
            f.pair("open-not-last.%s.%s" % (cn, x), t(V[x], A), t(A, V[x]), "an open-ended sibling is not the last one")
            f.pair("open-middle.%s.%s" % (cn, x), t(A, V[x], B), t(A, B, V[x]), "an open-ended sibling in the middle")
            f.pair("open-before-pos.%s.%s" % (cn, x), t(V[x], POS("pos", FIX2)), t(V[x].replace('_S)', '_S, %s)' % TEM), POS("pos", FIX2)),
                   "an open-ended sibling in front of a positional argument")
            f.pair("bounded-not-last.%s.%s" % (cn, x), t(V[x].replace('_S)', '_S, arp::min_max_count<1, 3>)'), A),
                   t(V[x].replace('_S)', '_S, arp::fixed_count<3>)'), A), "a sibling of variable, bounded length is not the last one")
        f.pair("pos-open-first.%s" % cn, t(POS("pos"), POS("qqq")), t(POS("pos", FIX2), POS("qqq")),
               "an open-ended positional argument in front of another")
        f.pair("pos-bounded-first.%s" % cn, t(POS("pos", "arp::min_max_count<1, 2>"), POS("qqq", FIX2)), t(POS("pos", FIX2), POS("qqq", FIX2)),
               "a variable length positional argument in front of another")
        f.pair("pos-min-first.%s" % cn, t(POS("pos", "arp::min_count<1>"), POS("qqq", FIX2)), t(POS("pos", FIX2), POS("qqq", FIX2)),
               "an open-ended positional argument with a minimum in front of another")
        f.pair("pos-max-first.%s" % cn, t(POS("pos", "arp::max_count<2>"), POS("qqq", FIX2)), t(POS("pos", FIX2), POS("qqq", FIX2)),
               "a positional argument with a maximum only in front of another")
    # contradictory bounds
    for (a, b) in ((1, 0), (2, 1), (3, 1), (10, 9)):
        f.pair("count.%d-%d" % (a, b), anon(POS("pos", "arp::min_max_count<%d, %d>" % (a, b))),
               anon(POS("pos", "arp::min_max_count<%d, %d>" % (b, a))), "minimum count above the maximum count")
    f.pair("count.multi", anon(MUL("mmm", "arp::min_max_count<3, 2>")), anon(MUL("mmm", "arp::min_max_count<2, 3>")),
           "minimum count above the maximum count")
    f.pair("count.fixed0", anon(POS("pos", "arp::fixed_count<0>")), anon(POS("pos", "arp::fixed_count<1>", "int")), "a fixed count of zero")
    f.pair("count.multi0", anon(MUL("mmm", "arp::min_max_count<0, 2>")), anon(MUL("mmm", "arp::min_max_count<1, 2>")),
           "a labelled list that may be empty")
    f.pair("count.multi1", anon(MUL("mmm", "arp::fixed_count<1>")), anon(MUL("mmm", "arp::fixed_count<2>")),
           "a labelled list of exactly one")
    f.pair("count.multi-max", anon(MUL("mmm", "arp::max_count<3>")), anon(MUL("mmm", "arp::min_max_count<1, 3>")),
           "a labelled list with a maximum only may be empty")
    for (a, b) in ((1, 0), (5, 4), (100, -100)):
        f.pair("value.%d-%d" % (a, b), anon('ar::arg<int>("aaa"_S, arp::min_max_value<%d, %d>())' % (a, b)),
               anon('ar::arg<int>("aaa"_S, arp::min_max_value<%d, %d>())' % (b, a)), "minimum value above the maximum value")
    f.good("value.equal", anon('ar::arg<int>("aaa"_S, arp::min_max_value<4, 4>())'), "equal bounds")
    # a scalar cannot hold a list
    for n, cnt in (("fixed2", FIX2), ("open", ""), ("range", "arp::min_max_count<1, 2>")):
        f.pair("container.%s" % n, anon(POS("pos", cnt, "int")), anon(POS("pos", cnt, "VI")), "several values for a scalar")
        if n != "fixed2" or True:
            f.pair("container.multi.%s" % n, anon('ar::multi_arg<int>("mmm"_S%s)' % (cnt and ", " + cnt)),
                   anon('ar::multi_arg<VI>("mmm"_S%s)' % (cnt and ", " + cnt)), "several values for a scalar")
    # end markers only make sense for a list of variable length
    for n, x in (("arg", 'ar::arg<int>("aaa"_S%s)'), ("flag", 'ar::flag("aaa"_S%s)'), ("count", 'ar::counting_flag<int>("aaa"_S%s)')):
        f.pair("marker." + n, anon(x % (", " + TEM)), anon(x % ""), "an end marker on a node of fixed count")
    for n, x in (("multi", 'ar::multi_arg<VI>("aaa"_S%s)'), ("pos", 'ar::positional_arg<VI>("aaa"_S%s)'), ("fwd", 'ar::forwarding_arg("--"_S%s)')):
        f.pair("marker.fixed." + n, anon(x % (", " + FIX2 + ", " + TEM)), anon(x % (", arp::min_max_count<1, 2>, " + TEM)),
               "an end marker on a list of fixed length")
    # value separators need exactly one value
    SEP = 'arp::value_separator_t{"="_S}'
    for n, x in (("multi", 'ar::multi_arg<VI>("aaa"_S%s)'), ("multi2", 'ar::multi_arg<VI>("aaa"_S, arp::fixed_count<2>%s)'),
                 ("flag", 'ar::flag("aaa"_S%s)'), ("count", 'ar::counting_flag<int>("aaa"_S%s)'),
                 ("multi12", 'ar::multi_arg<VI>("aaa"_S, arp::min_max_count<1, 2>%s)')):
        f.pair("sep." + n, anon(x % (", " + SEP)), anon(x % ""), "a value separator on a node that does not take one value")
    # legal shapes
    f.good("ok.all", anon(A, B, C, MUL("mmm", "arp::fixed_count<2>"), MUL("nnn", TEM), FWD("--", 'arp::token_end_marker_t{"stop"_S}'),
                          POS("pos", "arp::fixed_count<1>", "int"), POS("qqq", FIX2), POS("rrr", TEM), POS("sss")),
           "every kind in a legal order")
    f.good("ok.counting", anon(C, 'ar::counting_flag<int>("ddd"_S)', MUL("mmm")), "counting flags are not lists")
    f.good("ok.arg-sep", anon('ar::arg<int>("aaa"_S, %s)' % SEP, MUL("mmm")), "a value separator on an argument")
    return f
