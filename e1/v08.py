"""Legal trees are accepted, by both language versions and both compilers."""
from common import *
import mat, v03, v07, itertools, glob

# documented node/policy combinations (the complement of V03's table)
ACCEPT = {
 "flag": "short error desc alias dependent rten",
 "flagS": "long error desc alias dependent rten",
 "arg": "short error desc required default alias dependent minmaxvalue rten rtreq valsep custom",
 "count": "short error desc default alias dependent minmaxvalue rten",
 "multi": "short error desc required default dependent minmaxcount rten rtreq tem",
 "fwd": "error desc required default dependent minmaxcount fixed rten rtreq tem",
 "pos": "error desc default dependent minmaxcount fixed rten rtreq tem",
 "one_of": "required default", "one_ofR": "display", "agrp": "required default", "agrpR": "display minmaxvalue",
 "amode": "error rten", "nmode": "desc rten", "help": "short error desc router flatten pname pver", "root": "extr",
 "rflag": "short error desc rten", "rarg": "short error desc default minmaxvalue rten valsep custom",
}

README_TREES = {
 "cat": ['ar::help("help"_S, "h"_S, "Display this help and exit"_S, arp::program_name_t{"my-cat"_S}, arp::program_version_t{"v3.14"_S})',
         'ar::flag("version"_S, "Output version information and exit"_S, arp::router{[](bool) {}})',
         '''ar::mode(ar::flag("show-all"_S, "A"_S, "Equivalent to -nE"_S, arp::alias_t{arp::short_name_t{"E"_S}, arp::short_name_t{"n"_S}}),
  ar::flag("show-ends"_S, "E"_S, "Display $ at end of each line"_S),
  ar::flag("show-nonprinting"_S, "n"_S, "Use ^ and M- notation, except for LFD and TAB"_S),
  ar::arg<int>("max-lines"_S, "Maximum lines to output"_S, arp::value_separator_t{"="_S}, arp::default_value{-1}),
  ar::arg<std::optional<std::size_t>>("max-line-length"_S, "Maximum line length"_S, arp::value_separator_t{"="_S}, arp::default_value{std::optional<std::size_t>{}}),
  ard::one_of(arp::default_value{std::string_view{"..."}},
   ar::flag("skip-line"_S, "s"_S, "Skips line output if max line length reached"_S, arp::dependent_t{arp::long_name_t{"max-line-length"_S}}),
   ar::arg<std::string_view>("line-suffix"_S, "Shortens line length"_S, arp::dependent_t{arp::long_name_t{"max-line-length"_S}}, arp::value_separator_t{"="_S})),
  ar::arg<colour_e>("theme"_S, "Set the output colour theme"_S, arp::value_separator_t{"="_S}, arp::default_value{colour_e::red},
   arp::custom_parser<colour_e>{[](std::string_view) { return colour_e::red; }}),
  ard::alias_group(arp::default_value{colour_e::green}, arp::max_value<colour_e::blue>(),
   ar::counting_flag<colour_e>("v"_S, arp::description_t{"Verbosity level"_S}),
   ar::arg<colour_e>("verbose"_S, "Verbosity level"_S, arp::value_separator_t{"="_S}, arp::custom_parser<colour_e>{[](std::string_view) { return colour_e::red; }})),
  ar::positional_arg<VS>("FILES"_S, "Files to read"_S, arp::required, arp::min_count<1>),
  arp::router{[](bool, bool, int, std::optional<std::size_t>, std::variant<bool, std::string_view>, colour_e, colour_e, VS) {}})'''],
 "copy-move": ['ar::help("help"_S, "h"_S, "Display this help and exit"_S)',
  '''ar::mode("copy"_S, "Copy source files to destination"_S, ar::flag("force"_S, "f"_S, "Force overwrite existing files"_S),
  ar::positional_arg<std::string_view>("DST"_S, "Destination directory"_S, arp::required, arp::fixed_count<1>),
  ar::positional_arg<VS>("SRC"_S, "Source file paths"_S, arp::required, arp::min_count<1>), arp::router{[](bool, std::string_view, VS) {}})''',
  '''ar::mode("move"_S, "Move source file to destination"_S, ar::flag("force"_S, "f"_S, "Force overwrite existing files"_S),
  ar::positional_arg<std::string_view>("DST"_S, "Destination directory"_S, arp::required, arp::fixed_count<1>),
  ar::positional_arg<std::string_view>("SRC"_S, "Source file path"_S, arp::required, arp::fixed_count<1>), arp::router{[](bool, std::string_view, std::string_view) {}})'''],
 "launcher": ['''ar::mode(ar::flag("force"_S, "f"_S), ar::positional_arg<VS>(arp::required, "PROGS"_S, "Programs to run"_S, arp::token_end_marker_t{"--"_S}, arp::min_count<1>),
  ar::positional_arg<VS>("ARGS"_S, "Arguments to pass to programs"_S), arp::router{[](bool, VS, VS) {}})'''],
 "forward": ['''ar::mode(ar::forwarding_arg(arp::required, "--"_S, "Programs to run"_S, arp::token_end_marker_t{"--"_S}, arp::min_count<1>),
  ar::positional_arg<VS>("ARGS"_S, "Arguments to pass to programs"_S), arp::router{[](VS, VS) {}})'''],
 "runtime": ['''ar::help("help"_S, "h"_S, "Display this help and exit"_S, arp::flatten_help, arp::program_name_t{"runtime_node_enable"_S}, arp::program_addendum_t{"An example"_S})''',
  'ar::flag("version"_S, "Output version information and exit"_S, arp::router{[](bool) {}})',
  '''ar::mode("advanced"_S, "Advanced features"_S, ar::flag("feature1"_S, "First feature"_S), ar::arg<int>("feature2"_S, "Second feature"_S, arp::default_value{42}),
  arp::router{[](bool, int) {}}, arp::runtime_enable{true})''',
  '''ar::mode(ar::flag("foo"_S, "Foo flag"_S, "f"_S), ar::flag("bar"_S, "Bar flag"_S, "b"_S),
  ar::arg<std::string_view>("advance-foo"_S, "Licensed foo"_S, arp::runtime_enable_required<std::string_view>{false}), arp::router{[](bool, bool, std::string_view) {}})'''],
}


def to17(code):
    """The same tree in C++17 spelling."""
    return re.sub(r'("(?:[^"\\]|\\.)*")_S', r'S_(\1){}', code)


def families(thorough):
    f = Family("V08")
    cfgs = [CLANG20, CLANGS, GCC20, GCCS]
    conv = lambda c, code: to17(code) if "s17" in c.name else code
    for c in cfgs:
        for n, t in README_TREES.items():
            f.good("readme.%s.%s" % (n, c.name), conv(c, tree(*t)), "documented tree '%s'" % n, c)
    hosts = [(t, p) for t in ACCEPT for p in ACCEPT[t].split()]
    for i, (t, p) in enumerate(hosts):
        code = mat.T[t](", " + mat.pol(t, p))
        f.good("policy.%s.%s" % (t, p), code, "documented policy '%s' on '%s'" % (p, t))
        if thorough or i % 16 == 0:
            for c in cfgs[1:]:
                f.good("policy.%s.%s.%s" % (t, p, c.name), conv(c, code), "documented policy '%s' on '%s'" % (p, t), c)
    # the order of policies does not matter
    sets = {
        "arg": (["\"host\"_S", '"z"_S', 'arp::required', 'arp::value_separator_t{"="_S}', 'arp::dependent_t{arp::long_name_t{"other"_S}}', 'arp::min_max_value<1, 9>()'], 'ar::arg<int>(%s)', 'ar::arg<int>("other"_S)'),
        "arg2": (['arp::long_name_t{"host"_S}', 'arp::short_name_t{"z"_S}', 'arp::default_value{4}', 'arp::runtime_enable{true}', 'arp::custom_parser<int>{[](std::string_view) { return 4; }}'], 'ar::arg<int>(%s)', 'ar::arg<int>("other"_S)'),
        "pos": (['"host"_S', '"descr"_S', 'arp::required', 'arp::min_max_count<1, 4>', 'arp::token_end_marker_t{"end"_S}'], None, None),
        "flag": (['"host"_S', 'arp::alias_t{arp::long_name_t{"other"_S}}', 'arp::runtime_enable{true}', 'arp::error_name_t{"EE"_S}'], 'ar::flag(%s)', 'ar::flag("other"_S)'),
        "count": (['"host"_S', 'arp::default_value{4}', 'arp::min_max_value<0, 9>()', 'arp::runtime_enable{true}'], 'ar::counting_flag<int>(%s)', 'ar::flag("other"_S)'),
        "help": (['"host"_S', 'arp::program_name_t{"prog"_S}', 'arp::program_version_t{"v1.0"_S}', 'arp::flatten_help', 'arp::program_intro_t{"intro"_S}', 'arp::program_addendum_t{"add"_S}', R], None, None),
    }
    for n, (ps, fmt, other) in sets.items():
        perms = list(itertools.permutations(ps))
        step = max(1, len(perms) // (48 if thorough else 6))
        for i in range(0, len(perms), step):
            a = ", ".join(perms[i])
            if n == "pos":
                code = anon('ar::arg<int>("other"_S)', 'ar::positional_arg<VI>(%s)' % a)
            elif n == "help":
                code = tree("ar::help(%s)" % a, mode('ar::flag("other"_S)'))
            else:
                code = anon(fmt % a, other)
            f.good("order.%s.%d" % (n, i), code, "policies of %s in order %s" % (n, a))
    # children in any order; router first, in the middle, last
    ch = ['ar::flag("aaa"_S)', 'ar::arg<int>("bbb"_S)', 'ard::one_of(arp::required, ar::arg<int>("ccc"_S), ar::arg<int>("ddd"_S))', R]
    for i, p in enumerate(itertools.permutations(ch)):
        if thorough or i % 4 == 0:
            f.good("children.%d" % i, tree("ar::mode(%s)" % ", ".join(p)), "children and router in any order")
    # the groups
    for k in range(2, 7 if thorough else 6):
        xs = ", ".join('ar::arg<int>("n%d"_S)' % i for i in range(k))
        f.good("one_of.same%d" % k, anon("ard::one_of(arp::required, %s)" % xs), "one_of with %d children of one type" % k)
        f.good("alias_group.same%d" % k, anon("ard::alias_group(arp::required, %s)" % xs), "alias_group with %d children" % k)
    f.good("one_of.flags", anon('ard::one_of(arp::required, ar::flag("aaa"_S), ar::arg<bool>("bbb"_S))'), "one_of with a flag and a bool")
    # copies of lists, deep nesting
    f.good("list", "void witness(int argc, char** argv) {\n const auto l = ar::list{ar::flag(\"force\"_S, \"f\"_S), ar::positional_arg<std::string_view>(\"DST\"_S, arp::required, arp::fixed_count<1>)};\n"
           " auto r = ar::root(arp::validation::default_validator, ar::mode(\"copy\"_S, l, ar::positional_arg<VS>(\"SRC\"_S), %s), ar::mode(\"move\"_S, l, %s));\n r.parse(argc, argv);\n}\n" % (R, R),
           "a list shared by two modes")
    m = mode('"m6"_S', 'ar::flag("aaa"_S)')
    for i in range(5, 0, -1):
        m = mode('"m%d"_S' % i, 'ar::flag("aaa"_S)', m, router=R if i % 2 else None) if i % 2 else 'ar::mode("m%d"_S, %s)' % (i, m)
    f.good("deep", tree(m), "six nested modes")
    f.good("parse.vector", "void witness(std::vector<ar::parsing::token_type> v, int argc, char** argv) {\n auto r = ar::root(arp::validation::default_validator, ar::help(\"help\"_S), %s);\n"
           " const auto c = r; c.parse(argc, argv); std::string s = c.help(); }\n" % mode('ar::flag("aaa"_S)'), "a const, copied root parses, and renders help")
    # the examples shipped with the library (the generated-translation one needs its generator)
    for std in ("17", "20"):
        for path in sorted(glob.glob(os.path.join(REPO, "examples", "c++" + std, "*", "main.cpp"))):
            n = os.path.basename(os.path.dirname(path))
            if "gen" in n:
                continue
            for c in cfgs:
                if ("s17" in c.name) == (std == "17") and (thorough or c.cxx.startswith("clang")):
                    f.good("example.%s.%s" % (n, c.name), '#line 1 "%s"\n%s' % (path, open(path, encoding="utf8").read()), "shipped example %s/%s" % (std, n), c)
    return f
