"""Policies that contradict their host node, or each other."""
from common import *
import mat

# host node -> policies that make no sense on it; the twin is the same tree without the policy
REJECT = {
 "flag": "long none display required default minmaxcount fixed minmaxvalue msv noresult router sfe tem validator valsep custom extr",
 "flagS": "short none display required default minmaxcount fixed minmaxvalue msv noresult router sfe tem validator valsep custom extr",
 "arg": "long none display minmaxcount fixed msv noresult router sfe tem validator extr",
 "count": "long none display required minmaxcount fixed msv noresult router sfe tem validator valsep custom extr",
 "multi": "long none display alias fixed minmaxvalue msv noresult router sfe validator valsep extr",
 "fwd": "long short none display alias minmaxvalue msv noresult router sfe validator valsep extr",
 "pos": "long short none display required alias minmaxvalue msv noresult router sfe validator valsep extr",
 "one_ofR": "long short none error desc required default alias dependent minmaxcount fixed minmaxvalue msv noresult router rten rtreq sfe tem validator valsep custom",
 "agrpR": "long short none error desc required default alias dependent minmaxcount fixed noresult router rten rtreq sfe tem validator valsep custom",
 "amode": "long short display desc required default alias dependent minmaxvalue msv noresult router rtreq custom extr",
 "nmode": "long short none display error required default alias dependent minmaxvalue msv noresult router rtreq sfe tem valsep custom extr",
 "help": "long none display required default alias dependent minmaxcount fixed minmaxvalue msv noresult rten rtreq sfe validator valsep custom extr",
 "root": "long short none display error desc required default alias dependent minmaxcount fixed minmaxvalue msv noresult router rten rtreq sfe tem validator valsep custom",
 "rflag": "long none display required default alias dependent minmaxcount fixed minmaxvalue msv noresult router sfe tem validator valsep custom extr",
 "rarg": "long none display required alias dependent minmaxcount fixed msv noresult router sfe tem validator extr",
}

# the documented policies of each node, given twice
HOST = {
 "flag": lambda p: anon('ar::flag("host"_S%s)' % p, 'ar::flag("other"_S)', 'ar::flag("other2"_S)'),
 "arg": lambda p: anon('ar::arg<int>("host"_S%s)' % p, 'ar::arg<int>("other"_S)', 'ar::arg<int>("other2"_S)'),
 "count": lambda p: anon('ar::counting_flag<int>("host"_S%s)' % p, 'ar::flag("other"_S)', 'ar::flag("other2"_S)'),
 "multi": lambda p: anon('ar::arg<int>("other"_S)', 'ar::arg<int>("other2"_S)', 'ar::multi_arg<VI>("host"_S%s)' % p),
 "pos": lambda p: anon('ar::arg<int>("other"_S)', 'ar::arg<int>("other2"_S)', 'ar::positional_arg<VI>("host"_S%s)' % p),
 "one_of": lambda p: anon('ard::one_of(ar::arg<int>("aaa"_S), ar::arg<int>("bbb"_S)%s)' % p),
 "agrp": lambda p: anon('ard::alias_group(ar::arg<int>("aaa"_S), ar::arg<int>("bbb"_S)%s)' % p),
 "nmode": lambda p: tree('ar::mode("mode1"_S, ar::arg<int>("other"_S), %s%s)' % (R, p)),
 "help": lambda p: tree('ar::help("help"_S%s)' % p, mode('ar::arg<int>("other"_S)')),
 "root": lambda p: tree(mode('ar::arg<int>("other"_S)') + p),
}
OTHER = lambda n, k="long": "arp::%s_name_t{\"%s\"_S}" % (k, n)
# policy -> (first instance, a second one that is not identical, or None)
TWICE = {
 "short": ('arp::short_name_t{"z"_S}', 'arp::short_name_t{"y"_S}'),
 "error": ('arp::error_name_t{"EE"_S}', 'arp::error_name_t{"FF"_S}'),
 "desc": ('arp::description_t{"desc"_S}', 'arp::description_t{"other desc"_S}'),
 "required": ("arp::required", "arp::required"),
 "default": ("arp::default_value<int>{1}", "arp::default_value<int>{1}"),
 "alias": ("arp::alias_t{%s}" % OTHER("other"), "arp::alias_t{%s}" % OTHER("other2")),
 "dependent": ("arp::dependent_t{%s}" % OTHER("other"), "arp::dependent_t{%s}" % OTHER("other2")),
 "minmaxvalue": ("arp::min_max_value<1, 9>()", "arp::min_max_value<2, 8>()"),
 "minmaxcount": ("arp::min_max_count<1, 3>", "arp::min_max_count<1, 2>"),
 "custom": ("arp::custom_parser<int>{[](std::string_view){return 1;}}",
            "arp::custom_parser<int>{[](std::string_view){return 2;}}"),
 "rten": ("arp::runtime_enable{true}", "arp::runtime_enable{false}"),
 "valsep": ('arp::value_separator_t{"="_S}', 'arp::value_separator_t{":"_S}'),
 "tem": ('arp::token_end_marker_t{"end"_S}', 'arp::token_end_marker_t{"fin"_S}'),
 "flatten": ("arp::flatten_help", "arp::flatten_help"),
 "pname": ('arp::program_name_t{"prog"_S}', 'arp::program_name_t{"prog2"_S}'),
 "pver": ('arp::program_version_t{"v1.0"_S}', 'arp::program_version_t{"v2.0"_S}'),
 "validator": ("arp::required", "arp::required"),
}
TWICE_ON = {
 "flag": "short error desc alias dependent rten",
 "arg": "short error desc required default alias dependent minmaxvalue custom rten valsep",
 "count": "short error desc default alias dependent minmaxvalue rten",
 "multi": "short error desc required dependent minmaxcount rten tem",
 "pos": "error desc dependent minmaxcount rten",
 "one_of": "required",
 "agrp": "required",
 "nmode": "desc rten",
 "help": "short desc error flatten pname pver",
}

# two policies of one node that contradict each other (both orders are tried)
CONTRA = [
 ("arg", "required", "default", "a required argument never uses its default"),
 ("arg", "default", "required", "as above, the other way around"),
]


def families(thorough):
    f = Family("V03")
    for t, ps in REJECT.items():
        good = mat.T[t]("")
        for p in ps.split():
            f.pair("%s.%s" % (t, p), mat.T[t](", " + mat.pol(t, p)), good,
                   "policy '%s' on node '%s'" % (p, t))
    for t, ps in TWICE_ON.items():
        for p in ps.split():
            a, b = TWICE[p]
            if t in ("one_of", "agrp") and p == "default":
                continue
            good = HOST[t](", " + a)
            f.pair("twice.%s.%s" % (t, p), HOST[t](", %s, %s" % (a, b)), good,
                   "policy '%s' given twice to node '%s'" % (p, t))
            if b != a and thorough:
                f.pair("twice-same.%s.%s" % (t, p), HOST[t](", %s, %s" % (a, a)), good,
                       "policy '%s' given twice, identically, to node '%s'" % (p, t))
    f.pair("twice.root.validator", tree(mode('ar::flag("aaa"_S)'), "arp::validation::default_validator"),
           tree(mode('ar::flag("aaa"_S)')), "two validators")
    # contradictory pairs
    for host in ("arg", "multi"):
        vt = {"arg": "int", "multi": "VI"}[host]
        req, dfl = "arp::required", "arp::default_value<%s>{%s{}}" % (vt, vt)
        if host == "multi":
            continue
        f.pair("contra.%s.req-def" % host, HOST[host](", %s, %s" % (req, dfl)), HOST[host](", " + req),
               "required and a default value on one node")
        f.pair("contra.%s.def-req" % host, HOST[host](", %s, %s" % (dfl, req)), HOST[host](", " + dfl),
               "a default value and required on one node")
    for nm, fmt in (("one_of", "ard::one_of(%s)"), ("alias_group", "ard::alias_group(%s)")):
        a, b = 'ar::arg<int>("aaa"_S%s)', 'ar::arg<int>("bbb"_S%s)'
        vt = "std::variant<int,int>" if nm == "one_of" else "int"
        dfl = "arp::default_value<int>{42}"
        gdf = "arp::default_value<%s>{42}" % ("std::variant<int, double>" if nm == "one_of" else "int")
        bb = 'ar::arg<double>("bbb"_S)' if nm == "one_of" else b % ""
        f.pair("contra.%s.req-def" % nm, anon(fmt % ("arp::required, %s, %s, %s" % (gdf, a % "", bb))),
               anon(fmt % ("%s, %s, %s" % (gdf, a % "", bb))), "required and a default value on one group")
        f.pair("contra.%s.def-req" % nm, anon(fmt % ("%s, arp::required, %s, %s" % (gdf, a % "", bb))),
               anon(fmt % ("arp::required, %s, %s" % (a % "", bb))), "a default value and required on one group")
        for k, (x, y) in enumerate((("", ", arp::required"), (", arp::required", ""), (", arp::required", ", arp::required"))):
            f.pair("contra.%s.child-required%d" % (nm, k), anon(fmt % ("arp::required, " + a % x + ", " + b % y)),
                   anon(fmt % ("arp::required, " + a % "" + ", " + b % "")),
                   "a child of a group is required, although only one of them can be given")
        for k, (x, y) in enumerate((("", ", " + dfl), (", " + dfl, ""), (", " + dfl, ", " + dfl))):
            f.pair("contra.%s.child-default%d" % (nm, k), anon(fmt % ("arp::required, " + a % x + ", " + b % y)),
                   anon(fmt % ("arp::required, " + a % "" + ", " + b % "")),
                   "a child of a group has a default value")
    # required + positional minimum
    f.pair("contra.pos.req-min0", anon('ar::positional_arg<VI>("pos"_S, arp::required)'),
           anon('ar::positional_arg<VI>("pos"_S, arp::required, arp::min_count<1>)'),
           "required, but no value suffices")
    f.pair("contra.pos.req-min0b", anon('ar::positional_arg<VI>("pos"_S, arp::max_count<4>, arp::required)'),
           anon('ar::positional_arg<VI>("pos"_S, arp::min_max_count<1, 4>, arp::required)'),
           "required, but no value suffices, with a maximum")
    # names that exclude each other
    two = 'ar::arg<int>("other"_S)'
    for k, (x, y) in enumerate((
            ('arp::none_name_t{"nname"_S}', 'arp::long_name_t{"lname"_S}'),
            ('arp::none_name_t{"nname"_S}', 'arp::short_name_t{"s"_S}'),
            ('arp::display_name_t{"dname"_S}', 'arp::long_name_t{"lname"_S}'),
            ('arp::display_name_t{"dname"_S}', 'arp::short_name_t{"s"_S}'))):
        fmt = 'ar::arg<int>(%s)'
        for o, (p, q) in enumerate(((x, y), (y, x))):
            f.pair("contra.names%d.%d" % (k, o), anon(fmt % (p + ", " + q), two), anon(fmt % y, two),
                   "names that exclude each other: %s and %s" % (p, q))
    ren, rre = "arp::runtime_enable{true}", "arp::runtime_enable_required<int>{true}"
    f.pair("contra.runtime-required", anon('ar::arg<int>("host"_S, %s, arp::required)' % ren),
           anon('ar::arg<int>("host"_S, %s)' % ren), "required, but maybe disabled at run time")
    f.pair("contra.required-runtime", anon('ar::arg<int>("host"_S, arp::required, %s)' % ren),
           anon('ar::arg<int>("host"_S, arp::required)'), "required, but maybe disabled at run time")
    f.pair("contra.rtreq-required", anon('ar::arg<int>("host"_S, %s, arp::required)' % rre),
           anon('ar::arg<int>("host"_S, %s)' % rre), "required twice over")
    f.pair("contra.rtreq-default", anon('ar::arg<int>("host"_S, %s, arp::default_value<int>{1})' % rre),
           anon('ar::arg<int>("host"_S, %s)' % rre), "required when enabled, and a default value")
    # the documented combinations
    for t in HOST:
        if t in ("one_of", "agrp", "root"):
            continue
        for p in TWICE_ON[t].split():
            f.good("single.%s.%s" % (t, p), HOST[t](", " + TWICE[p][0]), "documented policy '%s' on '%s'" % (p, t))
    return f
