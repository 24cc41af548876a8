"""Ambiguous names: two ways of reading one command line token."""
from common import *

KINDS = {
    "flag": lambda names: "ar::flag(%s)" % names,
    "arg": lambda names: "ar::arg<int>(%s)" % names,
    "count": lambda names: "ar::counting_flag<int>(%s)" % names,
    "multi": lambda names: "ar::multi_arg<VI>(%s)" % names,
}


def families(thorough):
    f = Family("V01")
    ks = list(KINDS)
    for what, a, b in (("long", '"alpha"_S', '"bravo"_S'), ("short", '"a"_S', '"b"_S')):
        for i, x in enumerate(ks):
            for j, y in enumerate(ks):
                if not thorough and what == "short" and (i + j) % 2 and i != j:
                    continue
                # the variable length kind must come last among its siblings
                if x == "multi":
                    continue
                f.pair("%s.%s-%s" % (what, x, y),
                       anon(KINDS[x](a), KINDS[y](a)), anon(KINDS[x](a), KINDS[y](b)),
                       "%s name shared by two siblings (%s, %s)" % (what, x, y))
        # positions
        x, y, z = KINDS["flag"], KINDS["arg"], KINDS["count"]
        c, d, e = ('"charlie"_S', '"delta"_S', '"echo"_S') if what == "long" else \
                  ('"c"_S', '"d"_S', '"e"_S')
        f.pair(what + ".first-third", anon(x(a), y(b), z(a)), anon(x(a), y(b), z(c)),
               "shared by non-adjacent siblings 0 and 2")
        f.pair(what + ".second-last", anon(x(a), y(b), z(c), y(d), x(b)),
               anon(x(a), y(b), z(c), y(d), x(e)), "shared by non-adjacent siblings 1 and 4")
        f.pair(what + ".last-two", anon(x(a), y(b), z(c), y(c)), anon(x(a), y(b), z(c), y(d)),
               "shared by the last two siblings")
        oo = lambda p, q: "ard::one_of(arp::required, %s, %s)" % (p, q)
        ag = lambda p, q: "ard::alias_group(arp::required, %s, %s)" % (p, q)
        A = KINDS["arg"]
        for nm, grp in (("one_of", oo), ("alias_group", ag)):
            f.pair("%s.within-%s" % (what, nm), anon(grp(A(a), A(a))), anon(grp(A(a), A(b))),
                   "shared by two children of one " + nm)
            f.pair("%s.mode-vs-%s" % (what, nm), anon(x(c), grp(A(a), A(c))),
                   anon(x(c), grp(A(a), A(b))), "shared by a mode child and a %s child" % nm)
            f.pair("%s.%s-vs-later-mode" % (what, nm), anon(grp(A(a), A(b)), x(b)),
                   anon(grp(A(a), A(b)), x(c)), "shared by a %s child and a later sibling" % nm)
            f.pair("%s.between-two-%s" % (what, nm), anon(grp(A(a), A(b)), grp(A(c), A(a))),
                   anon(grp(A(a), A(b)), grp(A(c), A(d))), "shared by children of two %s" % nm)
        f.pair(what + ".between-one_of-and-alias_group", anon(oo(A(a), A(b)), ag(A(c), A(b))),
               anon(oo(A(a), A(b)), ag(A(c), A(d))), "shared by children of two groups")
        # nested / named modes
        nm = lambda n, *ch: mode('"%s"_S' % n, *ch)
        f.pair(what + ".named-mode", tree(nm("mode1", x(a), y(a))), tree(nm("mode1", x(a), y(b))),
               "shared in a named mode")
        f.pair(what + ".second-mode", tree(nm("mode1", x(a), y(b)), nm("mode2", x(c), y(d), z(c))),
               tree(nm("mode1", x(a), y(b)), nm("mode2", x(c), y(d), z(e))),
               "shared in the second of two modes")
        f.pair(what + ".nested-mode", tree(nm("mode1", x(a), nm("mode2", x(b), y(b)))),
               tree(nm("mode1", x(a), nm("mode2", x(b), y(c)))), "shared in a nested mode")
        f.pair(what + ".outer-of-nested", tree(nm("mode1", x(a), y(a), nm("mode2", x(b), y(c)))),
               tree(nm("mode1", x(a), y(d), nm("mode2", x(b), y(c)))),
               "shared in a mode that has a nested mode")
        # root children
        rf = lambda n: "ar::flag(%s, %s)" % (n, R)
        f.pair(what + ".root-flags", tree(rf(a), rf(a)), tree(rf(a), rf(b)),
               "shared by two children of the root")
        f.pair(what + ".root-help", tree("ar::help(%s)" % a, rf(a)),
               tree("ar::help(%s)" % a, rf(b)), "shared by help and another child of the root")
        f.pair(what + ".root-help-last", tree(rf(b), rf(a), "ar::help(%s)" % a),
               tree(rf(b), rf(a), "ar::help(%s)" % c), "shared by help and an earlier root child")
        f.pair(what + ".list", anon("ar::list{%s, %s}" % (x(a), y(b)), z(b)),
               anon("ar::list{%s, %s}" % (x(a), y(b)), z(c)), "shared with a member of a list")
        f.pair(what + ".lists", anon("ar::list{%s, %s}" % (x(a), y(b)), "ar::list{%s}" % z(a)),
               anon("ar::list{%s, %s}" % (x(a), y(b)), "ar::list{%s}" % z(c)),
               "shared by members of two lists")
        f.pair(what + ".alias-node", anon("ar::flag(%s, arp::alias_t{%s})" % (
            b, ("arp::long_name_t{%s}" if what == "long" else "arp::short_name_t{%s}") % a),
            x(a), y(b)), anon("ar::flag(%s, arp::alias_t{%s})" % (
                b, ("arp::long_name_t{%s}" if what == "long" else "arp::short_name_t{%s}") % a),
                x(a), y(c)), "shared with an alias node")
    # long and short of different nodes, only one of the two collides
    f.pair("both.short-collides", anon('ar::flag("alpha"_S, "a"_S)', 'ar::arg<int>("bravo"_S, "a"_S)'),
           anon('ar::flag("alpha"_S, "a"_S)', 'ar::arg<int>("bravo"_S, "b"_S)'),
           "two nodes with both names share only the short one")
    f.pair("both.long-collides", anon('ar::flag("alpha"_S, "a"_S)', 'ar::arg<int>("alpha"_S, "b"_S)'),
           anon('ar::flag("alpha"_S, "a"_S)', 'ar::arg<int>("bravo"_S, "b"_S)'),
           "two nodes with both names share only the long one")
    f.pair("unicode", anon('ar::flag("\u732b"_S)', 'ar::arg<int>("\u732b"_S)'),
           anon('ar::flag("\u732b"_S)', 'ar::arg<int>("\u72ac"_S)'), "a shared multi-byte short name")
    f.pair("fwd", anon('ar::forwarding_arg("--"_S, arp::token_end_marker_t{"end"_S})', 'ar::forwarding_arg("--"_S, "descr"_S)'),
           anon('ar::forwarding_arg("--"_S, arp::token_end_marker_t{"end"_S})', 'ar::forwarding_arg("---"_S, "descr"_S)'),
           "two forwarding arguments share their bare name")
    f.pair("fwd.apart", anon('ar::forwarding_arg("--"_S, arp::token_end_marker_t{"end"_S})', 'ar::flag("fff"_S)', 'ar::forwarding_arg("--"_S, "descr"_S)'),
           anon('ar::forwarding_arg("--"_S, arp::token_end_marker_t{"end"_S})', 'ar::flag("fff"_S)', 'ar::forwarding_arg("---"_S, "descr"_S)'),
           "two non-adjacent forwarding arguments share their bare name")
    # names of sibling modes
    m = lambda n, *ch: mode('"%s"_S' % n, *(ch or ('ar::flag("fff"_S)',)))
    f.pair("modes.adjacent", tree(m("mode1"), m("mode1", 'ar::flag("ggg"_S)')),
           tree(m("mode1"), m("mode2", 'ar::flag("ggg"_S)')), "two sibling modes share their name")
    f.pair("modes.apart", tree(m("mode1"), m("mode2"), m("mode1", 'ar::flag("ggg"_S)')),
           tree(m("mode1"), m("mode2"), m("mode3", 'ar::flag("ggg"_S)')),
           "non-adjacent sibling modes share their name")
    f.pair("modes.nested", tree(m("mode1", m("mode2"), m("mode2", 'ar::flag("ggg"_S)'))),
           tree(m("mode1", m("mode2"), m("mode3", 'ar::flag("ggg"_S)'))),
           "sibling modes nested in a mode share their name")
    f.pair("modes.explicit", tree(m("mode1"), mode('arp::none_name_t{"mode1"_S}', 'ar::flag("ggg"_S)')),
           tree(m("mode1"), mode('arp::none_name_t{"mode2"_S}', 'ar::flag("ggg"_S)')),
           "the name is given as string and as policy")
    # each child mode is a namespace of its own
    f.good("scope.siblings", tree(m("mode1", 'ar::flag("fff"_S, "f"_S)'), m("mode2", 'ar::arg<int>("fff"_S, "f"_S)')),
           "two modes may use the same names")
    f.good("scope.nested", tree(m("mode1", 'ar::flag("fff"_S)', m("mode2", 'ar::arg<int>("fff"_S)'))),
           "a nested mode may reuse its parent's names")
    f.good("scope.nested-modes", tree(m("mode1", m("mode3")), m("mode2", m("mode3"))),
           "equal mode names under different parents")
    return f
