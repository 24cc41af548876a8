"""The shape of the tree: what may be whose child, and who routes."""
from common import *

FL = lambda n, p="": 'ar::flag("%s"_S%s)' % (n, p and ", " + p)
AR = lambda n, p="": 'ar::arg<int>("%s"_S%s)' % (n, p and ", " + p)
V = "arp::validation::default_validator"


def root(*ch):
    return ("void witness(int argc, char** argv) {\n auto r = ar::root(%s);\n r.parse(argc, argv);\n}\n" % ", ".join(ch))


def nm(n, *ch, router=R):
    return mode('"%s"_S' % n, *ch, router=router)


def families(thorough):
    f = Family("V06")
    M = mode(FL("aaa"))
    f.pair("root.no-validator", root(M), root(V, M), "a root without a validator")
    f.pair("root.no-children", root(V), root(V, M), "a root without children")
    f.pair("root.only-policies", root(V, "arp::exception_translator<ar::default_error_code_translations>"),
           root(V, "arp::exception_translator<ar::default_error_code_translations>", M), "a root without children")
    for n, x in (("flag", 'ar::flag("bbb"_S%s)'), ("arg", 'ar::arg<int>("bbb"_S%s)'), ("count", 'ar::counting_flag<int>("bbb"_S%s)')):
        if n != "count":
            f.pair("root.no-router." + n, tree(x % "", M), tree(x % (", " + R), M), "a root child that is routed nowhere")
            f.pair("root.no-router-second." + n, tree(x.replace("bbb", "zzz") % (", " + R), x % "", M),
                   tree(x.replace("bbb", "zzz") % (", " + R), x % (", " + R), M), "a second root child that is routed nowhere")
            f.pair("mode.child-router." + n, anon(x % (", " + R)), anon(x % ""), "a router on a child of a mode")
            f.pair("mode.child-router-second." + n, anon(FL("ccc"), x % (", " + R)), anon(FL("ccc"), x % ""), "a router on the second child of a mode")
            f.pair("mode.named-child-router." + n, tree(nm("mode1", x % (", " + R))), tree(nm("mode1", x % "")), "a router on a child of a named mode")
            f.pair("mode.nested-child-router." + n, tree(nm("mode1", FL("ccc"), nm("mode2", x % (", " + R)))),
                   tree(nm("mode1", FL("ccc"), nm("mode2", x % ""))), "a router on a child of a nested mode")
            for g in ("one_of", "alias_group"):
                y = 'ar::arg<bool>("ddd"_S%s)' if n == "flag" else x.replace("bbb", "ddd")
                f.pair("%s.child-router.%s" % (g, n), anon("ard::%s(arp::required, %s, %s)" % (g, x % (", " + R), y % "")),
                       anon("ard::%s(arp::required, %s, %s)" % (g, x % "", y % "")), "a router on a child of a " + g)
        else:
            f.pair("root.no-router.count", tree(x % "", M), tree(FL("bbb", R), M), "a root child that is routed nowhere")
    f.pair("root.multi", tree('ar::multi_arg<VI>("bbb"_S)', M), tree(FL("bbb", R), M), "a list under the root is routed nowhere")
    f.pair("root.positional", tree('ar::positional_arg<VI>("bbb"_S)'), anon('ar::positional_arg<VI>("bbb"_S)'), "a positional argument under the root")
    # modes
    f.pair("mode.no-router", tree("ar::mode(%s)" % FL("aaa")), tree("ar::mode(%s, %s)" % (FL("aaa"), R)), "an anonymous mode without a router")
    f.pair("mode.named-no-router", tree('ar::mode("mode1"_S, %s)' % FL("aaa")), tree(nm("mode1", FL("aaa"))), "a named mode with arguments but no router")
    f.pair("mode.mixed-no-router", tree(nm("mode1", FL("aaa"), nm("mode2", FL("bbb")), router=None)),
           tree(nm("mode1", nm("mode2", FL("bbb")), router=None)), "a mode with arguments and a child mode, but no router")
    f.pair("mode.nested-no-router", tree(nm("mode1", nm("mode2", FL("bbb"), router=None), router=None)),
           tree(nm("mode1", nm("mode2", FL("bbb")), router=None)), "a nested mode without a router")
    f.pair("mode.empty", tree("ar::mode(%s)" % R), tree(mode(FL("aaa"))), "a mode without children")
    f.pair("mode.named-empty", tree(nm("mode1")), tree(nm("mode1", FL("aaa"))), "a named mode without children")
    f.pair("mode.in-anonymous", tree(mode(FL("aaa"), nm("mode1", FL("bbb")))), tree(nm("mode2", FL("aaa"), nm("mode1", FL("bbb")))),
           "a named mode in an anonymous mode")
    f.pair("mode.only-in-anonymous", tree(mode(nm("mode1", FL("bbb")))), tree(nm("mode2", nm("mode1", FL("bbb")))),
           "an anonymous mode around a named mode")
    f.pair("mode.anonymous-in-anonymous", tree(mode(FL("aaa"), mode(FL("bbb")))), tree(mode(FL("aaa"), FL("bbb"))), "nested anonymous modes")
    f.pair("mode.anonymous-in-named", tree(nm("mode1", FL("aaa"), mode(FL("bbb")))), tree(nm("mode1", FL("aaa"), nm("mode2", FL("bbb")))),
           "an anonymous mode in a named mode")
    f.pair("mode.two-anonymous", tree(mode(FL("aaa")), mode(FL("bbb"))), tree(nm("mode1", FL("aaa")), mode(FL("bbb"))), "two anonymous modes")
    f.pair("mode.two-anonymous-apart", tree(mode(FL("aaa")), nm("mode1", FL("ccc")), mode(FL("bbb"))),
           tree(nm("mode2", FL("aaa")), nm("mode1", FL("ccc")), mode(FL("bbb"))), "two anonymous modes")
    f.pair("mode.anonymous-first", tree(mode(FL("aaa")), nm("mode1", FL("bbb"))), tree(nm("mode1", FL("bbb")), mode(FL("aaa"))),
           "a named mode behind an anonymous one")
    f.pair("mode.anonymous-middle", tree(nm("mode2", FL("ccc")), mode(FL("aaa")), nm("mode1", FL("bbb"))),
           tree(nm("mode2", FL("ccc")), nm("mode1", FL("bbb")), mode(FL("aaa"))), "a named mode behind an anonymous one")
    f.pair("mode.anonymous-then-flag", tree(mode(FL("aaa")), FL("bbb", R)), tree(FL("bbb", R), mode(FL("aaa"))),
           "a root child behind an anonymous mode is never reached")
    f.pair("mode.anonymous-then-help", tree(mode(FL("aaa")), 'ar::help("help"_S)'), tree('ar::help("help"_S)', mode(FL("aaa"))),
           "help behind an anonymous mode is never reached")
    for g in ("one_of", "alias_group"):
        G = lambda *x: "ard::%s(%s)" % (g, ", ".join(x))
        ok = G("arp::required", AR("aaa"), AR("bbb"))
        f.pair(g + ".under-root", tree(ok, M.replace("aaa", "ccc")), anon(ok, FL("ccc")), "a group under the root")
        f.pair(g + ".under-root-routed", tree(G("arp::required", AR("aaa"), AR("bbb"), R), M.replace("aaa", "ccc")), anon(ok, FL("ccc")), "a routed group under the root")
        for g2 in ("one_of", "alias_group"):
            inner = "ard::%s(arp::required, %s, %s)" % (g2, AR("ccc"), AR("ddd"))
            f.pair("%s.nested-%s" % (g, g2), anon(G("arp::required", AR("aaa"), inner)), anon(ok, inner), "a group in a group")
        f.pair(g + ".one-child", anon(G("arp::required", AR("aaa"))), anon(ok), "a group of one")
        f.pair(g + ".no-child", anon(G("arp::required"), FL("ccc")), anon(ok, FL("ccc")), "a group of none")
        f.pair(g + ".neither", anon(G(AR("aaa"), AR("bbb"))), anon(ok), "a group that is neither required nor has a default")
        f.pair(g + ".mode-in", anon(G("arp::required", AR("aaa"), nm("mode1", FL("ccc")))), anon(ok), "a mode in a group")
        f.pair(g + ".help-in", anon(G("arp::required", AR("aaa"), 'ar::help("help"_S)')), anon(ok), "help in a group")
        if g == "one_of":
            f.pair("one_of.counting", anon(G("arp::required", AR("aaa"), 'ar::counting_flag<int>("bbb"_S)')), anon(ok),
                   "a counting flag in a one_of")
    # help
    H = 'ar::help("help"_S, "h"_S)'
    f.pair("help.in-mode", anon(H, FL("aaa")), tree(H, mode(FL("aaa"))), "help in an anonymous mode")
    f.pair("help.in-named", tree(nm("mode1", H, FL("aaa"))), tree(H, nm("mode1", FL("aaa"))), "help in a named mode")
    f.pair("help.in-nested", tree(nm("mode2", nm("mode1", H, FL("aaa")), router=None)), tree(H, nm("mode2", nm("mode1", FL("aaa")), router=None)), "help in a nested mode")
    # policies in the wrong place
    ET = "arp::exception_translator<ar::default_error_code_translations>"
    f.pair("translator.mode", tree(mode(FL("aaa"), ET)), tree(ET, mode(FL("aaa"))), "an exception translator below the root")
    f.pair("translator.named", tree(nm("mode1", FL("aaa"), ET)), tree(ET, nm("mode1", FL("aaa"))), "an exception translator below the root")
    f.pair("translator.flag", tree(FL("bbb", R + ", " + ET), mode(FL("aaa"))), tree(ET, FL("bbb", R), mode(FL("aaa"))), "an exception translator on a root child")
    f.pair("translator.arg", anon(AR("aaa", ET)), tree(ET, mode(AR("aaa"))), "an exception translator on an argument")
    f.pair("root.router", tree(mode(FL("aaa")), R), tree(mode(FL("aaa"))), "a router on the root")
    f.pair("mode.two-routers", tree(mode(FL("aaa"), R)), tree(mode(FL("aaa"))) + "\n", "two routers") if False else None
    # leaves have no children, lists no policies
    for n, x in (("flag", 'ar::flag("aaa"_S%s)'), ("count", 'ar::counting_flag<int>("aaa"_S%s)'), ("arg", 'ar::arg<int>("aaa"_S%s)'),
                 ("multi", 'ar::multi_arg<VI>("aaa"_S%s)'), ("pos", 'ar::positional_arg<VI>("aaa"_S%s)'), ("fwd", 'ar::forwarding_arg("--"_S%s)')):
        f.pair("leaf." + n, anon(x % (", " + FL("bbb"))), anon(x % ""), "a leaf node with a child")
    f.pair("leaf.help", tree('ar::help("help"_S, %s)' % FL("bbb"), M), tree(H, M), "help with a child")
    f.pair("list.policy", anon("ar::list{%s, arp::required}" % FL("aaa")), anon("ar::list{%s}" % FL("aaa")), "a policy in a list of nodes")
    f.pair("node.junk", anon(FL("aaa"), "42"), anon(FL("aaa")), "something that is neither node nor policy")
    f.pair("root.in-root", tree("ar::root(%s, %s)" % (V, M)), tree(M), "a root in a root")
    f.pair("root.in-mode", anon("ar::root(%s, %s)" % (V, M)), anon(FL("aaa")), "a root in a mode")
    # names are mandatory
    for n, x in (("flag", 'ar::flag(%s)'), ("count", 'ar::counting_flag<int>(%s)'), ("arg", 'ar::arg<int>(%s)'), ("multi", 'ar::multi_arg<VI>(%s)'), ("pos", 'ar::positional_arg<VI>(%s)'), ("fwd", "ar::forwarding_arg(%s)")):
        d = 'arp::description_t{"ddd"_S}'
        f.pair("name." + n, anon(x % d), anon(x % (('"--"_S, ' if n == "fwd" else '"aaa"_S, ') + d)), "a node without a name")
    f.pair("name.help", tree("ar::help(%s)" % 'arp::description_t{"ddd"_S}', M), tree('ar::help("help"_S, arp::description_t{"ddd"_S})', M), "help without a name")
    # legal
    f.good("ok.big", tree(H, FL("ver", R), AR("arg", R), nm("mode1", FL("aaa"), nm("mode2", AR("bbb")), nm("mode3", AR("bbb"))),
                          nm("mode4", nm("mode2", AR("bbb")), router=None), mode(ok, FL("ccc"))), "a tree with everything")
    return f
