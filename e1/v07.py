"""Routing contract: a router gets one value per value-producing child, in order, of its type."""
from common import *
import itertools

# kind -> (source, type delivered to the router; None for no value)
FIXED = {
    "flag": ('ar::flag("{n}"_S)', "bool"),
    "int": ('ar::arg<int>("{n}"_S)', "int"),
    "double": ('ar::arg<double>("{n}"_S)', "double"),
    "sv": ('ar::arg<std::string_view>("{n}"_S)', "std::string_view"),
    "u8": ('ar::arg<std::uint8_t>("{n}"_S)', "std::uint8_t"),
    "enum": ('ar::arg<colour_e>("{n}"_S, arp::custom_parser<colour_e>{{[](std::string_view){{ return colour_e::red; }}}})', "colour_e"),
    "opt": ('ar::arg<std::optional<int>>("{n}"_S, arp::default_value<std::optional<int>>{{std::optional<int>{{}}}})', "std::optional<int>"),
    "count": ('ar::counting_flag<unsigned>("{n}"_S)', "unsigned"),
    "counte": ('ar::counting_flag<colour_e>("{n}"_S, arp::min_max_value<colour_e::red, colour_e::blue>())', "colour_e"),
    "multi": ('ar::multi_arg<VI>("{n}"_S, arp::fixed_count<2>)', "VI"),
    "multid": ('ar::multi_arg<std::vector<double>>("{n}"_S, arp::fixed_count<3>)', "std::vector<double>"),
    "one": ('ard::one_of(arp::required, ar::arg<int>("{n}x"_S), ar::arg<double>("{n}y"_S))', "std::variant<int, double>"),
    "one3": ('ard::one_of(arp::required, ar::flag("{n}x"_S), ar::arg<double>("{n}y"_S), ar::arg<std::string_view>("{n}z"_S))', "std::variant<bool, double, std::string_view>"),
    "agrp": ('ard::alias_group(arp::required, ar::arg<double>("{n}x"_S), ar::arg<double>("{n}y"_S))', "double"),
    "agrpc": ('ard::alias_group(arp::default_value<int>{{0}}, ar::arg<int>("{n}x"_S), ar::counting_flag<int>("{n}y"_S))', "int"),
    "alias": ('ar::flag("{n}"_S, arp::alias_t{{arp::long_name_t{{"target"_S}}}})', None),
    "rt": ('ar::arg<int>("{n}"_S, arp::runtime_enable{{true}})', "int"),
    "rtr": ('ar::arg<int>("{n}"_S, arp::runtime_enable_required<int>{{true}})', "int"),
    "dep": ('ar::arg<int>("{n}"_S, arp::dependent_t{{arp::long_name_t{{"target"_S}}}})', "int"),
}
LAST = {
    "multiv": ('ar::multi_arg<VI>("{n}"_S)', "VI"),
    "pos": ('ar::positional_arg<VS>("{n}"_S)', "VS"),
    "pos1": ('ar::positional_arg<double>("{n}"_S, arp::fixed_count<1>)', "double"),
    "fwd": ('ar::forwarding_arg("--"_S)', "VS"),
}
NAMES = ["aaa", "bbb", "ccc", "ddd", "eee", "fff"]
TARGET = ('ar::flag("target"_S)', "bool")


def probe(types):
    """A router that only compiles if it is invoked with exactly these types."""
    return ("arp::router{[](auto... xs) { static_assert(std::is_same_v<std::tuple<decltype(xs)...>, "
            "std::tuple<%s>>); }}" % ", ".join(types))


def typed(types):
    return "arp::router{[](%s) {}}" % ", ".join(types)


def ctxs():
    return {
        "anon": lambda r, *ch: tree("ar::mode(%s)" % ", ".join(ch + (r,))),
        "named": lambda r, *ch: tree('ar::mode("mode1"_S, %s)' % ", ".join(ch + (r,))),
        "nested": lambda r, *ch: tree('ar::mode("mode1"_S, ar::mode("mode2"_S, %s))' % ", ".join(ch + (r,))),
        "routerfirst": lambda r, *ch: tree("ar::mode(%s)" % ", ".join((r,) + ch)),
        "parent": lambda r, *ch: tree('ar::mode("mode1"_S, %s, ar::mode("mode2"_S, ar::flag("zzz"_S), %s))' % (", ".join(ch + (r,)), R)),
        "list": lambda r, *ch: tree("ar::mode(ar::list{%s}, %s)" % (", ".join(ch), r)),
    }


def families(thorough):
    f = Family("V07")
    allk = dict(FIXED)
    allk.update(LAST)
    C = ctxs()

    def node(k, i):
        s, t = allk[k]
        return s.format(n=NAMES[i]), t

    def build(ks):
        src, ty = [], []
        if any(k in ("alias", "dep") for k in ks):
            src.append(TARGET[0])
            ty.append("bool")
        for i, k in enumerate(ks):
            s, t = node(k, i)
            src.append(s)
            if t:
                ty.append(t)
        return src, ty

    WRONG = "struct { int unconvertible; }"
    for cn, t in C.items():
        for i, k in enumerate(allk):
            if cn not in ("anon",) and not thorough and (i + len(cn)) % 5:
                continue
            if cn == "parent" and k in ("pos", "pos1", "multiv", "fwd"):
                continue
            src, ty = build([k] if k not in ("pos",) else ["int", k])
            if ty:
                wrong = list(ty)
                wrong[-1] = "std::unique_ptr<float>"
                f.pair("type.%s.%s" % (cn, k), t(typed(wrong), *src), t(probe(ty), *src), "a router of unconvertible type")
                if cn != "anon" and not thorough:
                    continue
                f.pair("fewer.%s.%s" % (cn, k), t(typed(ty[:-1]), *src), t(probe(ty), *src), "a router with too few parameters")
                f.pair("more.%s.%s" % (cn, k), t(typed(ty + ["int"]), *src), t(probe(ty), *src), "a router with too many parameters")
    # every ordered pair: the order of the values is the order of the children
    ks = [k for k in FIXED]
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            if not thorough and (i * 7 + j) % 6:
                continue
            src, ty = build([a, b])
            f.good("pair.%s-%s" % (a, b), C["anon"](probe(ty), *src), "router types for %s, %s" % (a, b))
    for i, (a, b, c) in enumerate(itertools.permutations(["flag", "sv", "count", "one", "agrp", "multi", "alias"], 3)):
        if not thorough and i % 18:
            continue
        src, ty = build([a, b, c])
        f.good("triple.%s-%s-%s" % (a, b, c), C["named"](probe(ty), *src), "router types for %s, %s, %s" % (a, b, c))
        if i % 18 == 0:
            f.pair("order.%s-%s-%s" % (a, b, c), C["anon"](probe(ty[::-1]), *src), C["anon"](probe(ty), *src),
                   "the values reach the router in reverse order")
    for k in LAST:
        for i, a in enumerate(ks):
            if not thorough and (i + len(k)) % 3:
                continue
            src, ty = build([a, "flag", k])
            f.good("last.%s-%s" % (a, k), C["anon"](probe(ty), *src), "router types for %s, flag, %s" % (a, k))
    # children of the root: one value each, and none for help
    for k in ("flag", "int", "double", "sv", "u8", "enum", "opt"):
        s, ty = FIXED[k]
        s = s.format(n="aaa")
        w = lambda r: tree(s[:-1] + ", " + r + ")", mode('ar::flag("zzz"_S)'))
        f.pair("root.type." + k, w(typed(["std::unique_ptr<float>"])), w(probe([ty])), "a root child router of unconvertible type")
        f.pair("root.more." + k, w(typed([ty, "int"])), w(probe([ty])), "a root child router with two parameters")
        f.pair("root.fewer." + k, w(typed([])), w(probe([ty])), "a root child router without a parameter") if k != "flag" else None
    # value types of the policies match the node's
    AI = lambda p: anon('ar::arg<int>("aaa"_S, %s)' % p)
    f.pair("default.type", AI("arp::default_value<std::unique_ptr<int>>{nullptr}"), AI("arp::default_value<int>{4}"), "a default value of unconvertible type")
    f.pair("default.string", AI('arp::default_value<std::string_view>{"a"}'), AI("arp::default_value<int>{4}"), "a default value of unconvertible type")
    f.pair("custom.type", AI("arp::custom_parser<std::string>{[](std::string_view s) { return std::string{s}; }}"),
           AI("arp::custom_parser<int>{[](std::string_view) { return 4; }}"), "a parser of unconvertible type")
    f.pair("custom.result", AI("arp::custom_parser<int>{[](std::string_view s) { return std::string{s}; }}"),
           AI("arp::custom_parser<int>{[](std::string_view) { return 4; }}"), "a parser whose function returns another type")
    f.pair("custom.param", AI("arp::custom_parser<int>{[](std::vector<int>) { return 4; }}"),
           AI("arp::custom_parser<int>{[](std::string_view) { return 4; }}"), "a parser that does not take a string")
    f.pair("minmax.type", anon('ar::arg<std::string_view>("aaa"_S, arp::min_max_value<1, 2>())'), AI("arp::min_max_value<1, 2>()"), "numeric limits on text")
    f.pair("noparse", anon('ar::arg<std::unique_ptr<int>>("aaa"_S)'), anon('ar::arg<int>("aaa"_S)'), "a value type that nothing parses")
    f.pair("noparse.enum", anon('ar::arg<colour_e>("aaa"_S)'), anon(FIXED["enum"][0].format(n="aaa")), "an enumeration that nothing parses")
    AG = lambda *x: anon("ard::alias_group(arp::required, %s)" % ", ".join(x))
    for k, (x, y) in enumerate((("int", "double"), ("double", "int"), ("std::string_view", "int"), ("int", "unsigned"))):
        f.pair("agrp.types%d" % k, AG('ar::arg<%s>("aaa"_S)' % x, 'ar::arg<%s>("bbb"_S)' % y),
               AG('ar::arg<%s>("aaa"_S)' % x, 'ar::arg<%s>("bbb"_S)' % x), "an alias group of two value types")
    f.pair("agrp.third", AG('ar::arg<int>("aaa"_S)', 'ar::arg<int>("bbb"_S)', 'ar::arg<long>("ccc"_S)'),
           AG('ar::arg<int>("aaa"_S)', 'ar::arg<int>("bbb"_S)', 'ar::arg<int>("ccc"_S)'), "an alias group whose third child has another type")
    f.pair("agrp.default", anon('ard::alias_group(arp::default_value<std::string_view>{"a"}, ar::arg<int>("aaa"_S), ar::arg<int>("bbb"_S))'),
           anon('ard::alias_group(arp::default_value<int>{1}, ar::arg<int>("aaa"_S), ar::arg<int>("bbb"_S))'), "a group default of unconvertible type")
    f.pair("count.type", anon('ar::counting_flag<std::string>("aaa"_S)'), anon('ar::counting_flag<int>("aaa"_S)'), "a counting flag that cannot count")
    f.pair("count.minmax", anon('ar::counting_flag<int>("aaa"_S, arp::min_max_value<1, 3l>())'),
           anon('ar::counting_flag<int>("aaa"_S, arp::min_max_value<1, 3>())'), "limits of two types")
    return f
