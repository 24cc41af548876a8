"""The trees and token words analysed for each property."""
from engine import Case, any_bytes, printable
from model import Node, Group, Mode, Top, Tree

P2 = printable(2)
P3 = printable(3)


def F(long=None, short=None, **k):
    return Node("flag", long, short, **k)


def A(long=None, short=None, **k):
    return Node("arg", long, short, **k)


def C(long=None, short=None, **k):
    return Node("count", long, short, **k)


def M(long=None, short=None, **k):
    return Node("multi", long, short, **k)


def POS(disp, **k):
    return Node("positional", disp=disp, **k)


def FWD(none, **k):
    return Node("forwarding", none=none, **k)


def one_of(*c, **k):
    return Group("one_of", *c, **k)


def alias_group(*c, **k):
    return Group("alias_group", *c, **k)


I64 = ("std::int64_t", (0, (1 << 64) - 1))
U64 = ("std::uint64_t", (0, (1 << 64) - 1))
I32 = ("std::int32_t", (0, (1 << 32) - 1))
U8 = ("std::uint8_t", (0, 255))


def R03(deep):
    """values reach the router, once, in declaration order"""
    n = 4 if deep else 3
    yield Case("plain", Tree(Mode(None, A("bravo", "b"), F("alpha", "a"), POS("POS", min=0, max=2))), ["--alpha", "-b", "--bravo", P2], n)
    yield Case("order", Tree(Mode(None, A("mike"), F("kilo"), POS("FIRST", min=1, max=1), POS("REST", min=0))), ["--mike", "x1", P2], n + 1)
    yield Case("multi", Tree(Mode(None, F("tango", "t"), M("sierra", "s", min=2, max=2), POS("DEST", min=1, max=1))), ["-s", "--tango", P2], n + 1)
    yield Case("argv", Tree(Mode(None, A("bravo"), POS("POS", min=0))), [["--bravo", "\0"], [P2, "\0"]], n, entry="argv")
    yield Case("tokens", Tree(Mode(None, A("bravo"), POS("POS", min=0))), ["--bravo", P2], n, entry="tokens")
    yield Case("long_value", Tree(Mode(None, A("bravo", num=I64), POS("POS", min=0, max=2))), ["--bravo", P2], n)
    yield Case("top", Tree(Top(F("help", "h")), Top(A("version")), Mode(None, A("bravo"), F("alpha"))), ["--help", "-h", "--version", "--alpha", "--bravo", P2], n)
    yield Case("similar", Tree(Mode(None, A("bravo", "b"), A("bravos", "B"), A("brav", "r"), F("bb"))), ["--bravo", "--bravos", "--brav", "-b", "-B", "--bb", "x"], n)
    yield Case("empty", Tree(Mode(None, A("bravo", "b"), POS("POS", min=0, max=2))), ["", "--bravo", "-b", "--", "-"], n)
    yield Case("scripts", Tree(Mode(None, A("\u00e9t\u00e9", "\u00e9"), F("\u65e5\u672c", "\u65e5"), POS("POS", min=0, max=1))), ["--\u00e9t\u00e9", "-\u00e9", "--\u65e5\u672c", "-\u65e5", "-\u65e5\u00e9", "\u00e9"], n)
    yield Case("many", Tree(Mode(None, A("one"), A("two"), A("three"), A("four"), A("five"), POS("POS", min=0))), ["--one", "--three", "--five", P2], n + 1)
    yield Case("fixed_then_rest", Tree(Mode(None, POS("SRC", min=1, max=1), POS("MID", min=2, max=2), POS("DST", min=0))), [P2], n + 2)


def R04(deep):
    """every token is owned by one argument, or the command line is rejected"""
    n = 4 if deep else 3
    yield Case("fixed", Tree(Mode(None, F("alpha", "a"), POS("POS", min=1, max=1))), ["--alpha", "-a", P2], n + 1)
    yield Case("named", Tree(Mode(None, A("bravo", "b"), F("alpha", "a"))), ["--alpha", "-a", "-b", "--bravo", P2], n)
    yield Case("two_lists", Tree(Mode(None, POS("IN", min=2, max=2), POS("OUT", min=0, max=1))), [P2, "yy"], n + 1)
    yield Case("lists", Tree(Mode(None, M("tango", min=2, max=2), F("kilo"), M("sierra", min=1, max=2))), ["--sierra", "--tango", "--kilo", P2], n + 1)
    yield Case("modes", Tree(Mode("mm", F("alpha"), POS("POS", min=0, max=1)), Mode("nn", F("alpha"))), ["mm", "nn", "--alpha", P2], n)
    yield Case("top", Tree(Top(F("help", "h")), Mode("nn", F("help"))), ["--help", "-h", "nn", P2], n)
    yield Case("empty", Tree(Mode(None, F("alpha", "a"), POS("POS", min=1, max=2))), ["", "-a", "--alpha", "-", "--", "x"], n)
    yield Case("full", Tree(Mode(None, A("bravo"), POS("ONE", min=1, max=1), POS("TWO", min=1, max=1))), ["--bravo", P2], n + 2)
    yield Case("nested", Tree(Mode("mm", Mode("nn", F("alpha"), POS("POS", min=1, max=1)), A("bravo"))), ["mm", "nn", "--alpha", "--bravo", P2], n + 1)


def R06(deep):
    """value limits are inclusive"""
    big = (1 << 63) - 1
    for i, (num, lims) in enumerate([(I64, [(-3, 9), (-big - 1 if False else -big, big - 1), (0, None), (None, -1), (7, 7)]),
                                     (U64, [(3, 9), (0, 10), (1, (1 << 64) - 2), (5, None), (None, 1 << 40)]),
                                     (I32, [(-3, 9), (None, 1 << 30)]), (U8, [(1, 254), (7, 7)])]):
        for j, (lo, hi) in enumerate(lims if deep else lims[:3]):
            for how in ("ct", "rt"):
                if not deep and how == "rt" and j > 1:
                    continue
                nm = "%s_%d_%s" % (num[0][5:], j, how)
                yield Case(nm, Tree(Mode(None, A("bravo", num=num, lim=(lo, hi, how)), POS("POS", min=0, max=1))), ["--bravo", "x"], 2)


def R07(deep):
    """value counts"""
    n = 5 if deep else 4
    for a, b in ((1, 1), (2, 2), (1, 3), (0, 2), (2, None), (None, 1), (0, 0)) if deep else ((2, 2), (1, 3), (0, 1), (2, None), (None, 2)):
        if (a, b) != (0, 0):
            yield Case("pos_%s_%s" % (a, b), Tree(Mode(None, F("alpha"), POS("POS", min=a, max=b, vec=True) if (a, b) != (1, 1) else POS("POS", min=1, max=1))), ["--alpha", P2], n)
        if a and (b is None or b > 1):
            yield Case("multi_%s_%s" % (a, b), Tree(Mode(None, F("alpha"), M("sierra", "s", min=a, max=b))), ["--alpha", "-s", "--sierra", P2], n)
    yield Case("mixed", Tree(Mode(None, M("sierra", min=2, max=2), POS("POS", min=1, max=2))), ["--sierra", P2], n)
    yield Case("three", Tree(Mode(None, M("sierra", "s", min=3, max=3), F("alpha"), POS("POS", min=2, max=3))), ["-s", "--alpha", P2], n + 2)
    yield Case("numbers", Tree(Mode(None, M("sierra", "s", min=2, max=2), POS("ONE", min=1, max=1), POS("REST", min=1))), ["-s", P2], n + 1)
    yield Case("modes", Tree(Mode("mm", POS("POS", min=1, max=2)), Mode("nn", M("sierra", min=2, max=3))), ["mm", "nn", "--sierra", P2], n)


def R08(deep):
    """a node that is disabled at run time does not exist"""
    n = 3
    yield Case("flags", Tree(Mode(None, F("alpha", "a", enable="b0"), A("bravo", "b", enable="b1"), POS("POS", min=0, max=2)), bools=2), ["--alpha", "-ab", "-a", "--bravo", P2], n)
    yield Case("sep", Tree(Mode(None, A("bravo", sep="=", enable="b0"), POS("POS", min=0, max=1)), bools=1), ["--bravo", ["--bravo=", P2], P2], n)
    yield Case("required", Tree(Mode(None, A("bravo", required=True, enable="b0", default="dd"), F("kilo")), bools=1), ["--bravo", "--kilo", P2], n)
    yield Case("mode", Tree(Mode("mm", F("alpha"), Mode("oo", F("kilo"), enable="b1"), enable="b0"), Mode("nn", F("kilo")), bools=2), ["mm", "nn", "oo", "--alpha", "--kilo", P2], n)
    yield Case("group", Tree(Mode(None, one_of(F("alpha", "a", enable="b0"), A("bravo"), default=False), F("kilo", enable="b1")), bools=2), ["--alpha", "-a", "--bravo", "--kilo", P2], n)
    yield Case("aliases", Tree(Mode(None, F("zulu", "z", alias=["alpha", "kilo"]), F("alpha", enable="b0"), F("kilo", enable="b1")), bools=2), ["--zulu", "-z", "--alpha", "--kilo"], n)
    yield Case("listed", Tree(Mode(None, F("kilo"), M("sierra", enable="b0", min=2, max=2), POS("POS", min=0, max=1, enable="b1")), bools=2), ["--sierra", "--kilo", P2], n)
    if deep:
        yield Case("marker", Tree(Mode(None, M("sierra", marker="---", enable="b0"), POS("POS", min=0, max=2)), bools=1), ["--sierra", "---", P2], 4)
        yield Case("dep", Tree(Mode(None, F("alpha", enable="b0"), F("kilo", dep=["alpha"])), bools=1), ["--alpha", "--kilo", P2], 3)
        yield Case("counts", Tree(Mode(None, C("very", "v", enable="b0"), F("alpha", "a")), bools=1), ["-v", "-av", "-va", "-vv", "--very", P2], 3)
    yield Case("top", Tree(Top(F("help", "h", enable="b0")), Top(A("version", enable="b1")), Mode("mm", F("help")), bools=2), ["--help", "-h", "--version", "mm", P2], n)
    yield Case("anonymous", Tree(Mode("mm", F("alpha")), Mode(None, F("kilo"), POS("POS", min=0, max=1), enable="b0"), bools=1), ["mm", "--alpha", "--kilo", P2], n)
    yield Case("required_list", Tree(Mode(None, F("kilo"), M("sierra", required=True, enable="b0", default=["d"], max=2)), bools=1), ["--sierra", "--kilo", P2], n)
    yield Case("defaulted", Tree(Mode(None, A("bravo", enable="b0", default="dd"), A("delta", "d", sep="=", enable="b1", default="ee"), F("kilo")), bools=2), ["--bravo", ["-d=", P2], "-d", "--kilo", P2], n)


def R11(deep):
    """required and default values"""
    n = 3 if deep else 2
    yield Case("required", Tree(Mode(None, A("bravo", required=True), A("delta", "d", required=True), F("kilo"))), ["--bravo", "-d", "--kilo", P2], n + 2)
    yield Case("defaults", Tree(Mode(None, A("bravo", default="dd"), A("delta", default=42, num=I64), POS("POS", min=0, max=1, vec=True, default=["p", "qq"]))), ["--bravo", "--delta", P2], n + 1)
    yield Case("required_positional", Tree(Mode(None, F("kilo"), POS("POS", required=True, min=1, max=1))), ["--kilo", P2], n + 1)
    yield Case("required_multi", Tree(Mode(None, F("kilo"), M("sierra", required=True, max=2))), ["--kilo", "--sierra", P2], n + 1)
    yield Case("default_multi", Tree(Mode(None, F("kilo"), M("sierra", default=["a", "b", "c"], max=2))), ["--kilo", "--sierra", P2], n + 1)
    yield Case("default_kinds", Tree(Mode(None, C("very", "v", default=2), F("kilo", "k"), one_of(A("bravo"), F("alpha"), default="zz"), alias_group(C("wide", "w"), C("xray"), default=3))), ["-v", "-k", "--bravo", "-w", "x"], n + 1)
    yield Case("neither", Tree(Mode(None, F("kilo"), A("bravo"), M("sierra", min=2, max=2), POS("POS", min=0, max=1))), ["--kilo", "--bravo", "--sierra", P2], n + 1)
    yield Case("groups", Tree(Mode(None, one_of(F("alpha"), A("bravo"), required=True), alias_group(A("delta"), A("echo"), default="dd"), F("kilo"))), ["--alpha", "--bravo", "--delta", "--kilo", P2], n + 1)
    yield Case("submode", Tree(Mode("mm", A("bravo", required=True), Mode("nn", A("delta", required=True))), Mode("oo", A("delta", default="dd"))), ["mm", "nn", "oo", "--bravo", "--delta", P2], n + 1)
    yield Case("order", Tree(Mode(None, A("first", required=True), A("second", default="s"), A("third", required=True), A("fourth", default="f"))), ["--first", "--second", "--third", "--fourth", "x"], n + 2)
    yield Case("top", Tree(Top(A("version", required=True)) if False else Top(A("version")), Mode(None, A("bravo", required=True), F("alpha"))), ["--version", "--bravo", "--alpha", P2], n + 1)
    yield Case("separated", Tree(Mode(None, A("bravo", "b", sep="=", required=True), A("delta", sep="=", default="dd"), POS("POS", min=0, max=1, vec=True, default=["z"]))), [["-b=", P2], "--bravo", ["--delta=", P2], P2], n)


def R13(deep):
    """aliases"""
    n = 3
    yield Case("flags", Tree(Mode(None, F("zulu", "z", alias=["alpha", "k"]), F("alpha", "a"), F("kilo", "k"), F("lima"))), ["--zulu", "-z", "--alpha", "-k", "-zk", "--lima"], n)
    yield Case("values", Tree(Mode(None, A("zulu", alias=["bravo", "delta"]), A("bravo"), A("delta", "d"))), ["--zulu", "--bravo", "-d", P2], n + 1)
    yield Case("several", Tree(Mode(None, M("zulu", min=2, max=2, alias=["sierra", "tango"]), M("sierra", min=2, max=2), M("tango", min=2, max=2))), ["--zulu", "--sierra", "--tango", P2], n + 2 if deep else n + 1)
    yield Case("chain", Tree(Mode(None, F("zulu", alias=["yankee"]), F("yankee", alias=["alpha", "kilo"]), F("alpha"), F("kilo"))), ["--zulu", "--yankee", "--alpha", "--kilo"], n)
    yield Case("counted", Tree(Mode(None, F("zulu", "z", alias=["very"]), C("very", "v"), F("kilo"))), ["-z", "-v", "--zulu", "-vz", "--kilo", P2], n)
    yield Case("after", Tree(Mode(None, A("bravo", required=True), F("kilo", default=False) if False else F("kilo"), A("zulu", "z", alias=["bravo"]))), ["--zulu", "-z", "--bravo", "--kilo", P2], n + 1)
    yield Case("sep", Tree(Mode(None, A("zulu", sep="=", alias=["bravo"]), A("bravo"))), [["--zulu=", P2], "--zulu", "--bravo", P2], n)
    yield Case("three", Tree(Mode(None, F("zulu", "z", alias=["alpha", "bravo", "charlie"]), F("alpha"), F("bravo"), F("charlie"), A("delta"))), ["-z", "--alpha", "--bravo", "--charlie", "--delta", "x"], n)
    yield Case("two_aliases", Tree(Mode(None, F("yankee", alias=["alpha", "bravo"]), F("zulu", alias=["bravo", "charlie"]), F("alpha"), F("bravo"), F("charlie"))), ["--yankee", "--zulu", "--alpha", "--bravo", "--charlie"], n)
    yield Case("groups", Tree(Mode(None, A("zulu", alias=["bravo"]), one_of(A("bravo"), F("alpha"), default="x"), F("kilo"))), ["--zulu", "--bravo", "--alpha", "--kilo", P2], n)
    yield Case("in_mode", Tree(Mode("mm", F("zulu", alias=["alpha"]), F("alpha")), Mode("nn", F("alpha"), F("zulu"))), ["mm", "nn", "--zulu", "--alpha"], n)


def R14(deep):
    """dependents"""
    n = 3
    yield Case("flags", Tree(Mode(None, F("alpha", "a", dep=["bravo"]), A("bravo", "b"), F("kilo", "k"))), ["--alpha", "-a", "-b", "--kilo", "-ka", P2], n + 1 if deep else n)
    yield Case("two", Tree(Mode(None, A("delta", dep=["alpha", "k"]), F("alpha", "a"), F("kilo", "k"))), ["--delta", "-a", "-k", "-ak", "-ka", P2], n + 1)
    yield Case("chain", Tree(Mode(None, F("alpha", dep=["bravo"]), F("bravo", dep=["kilo"]), F("kilo"))), ["--alpha", "--bravo", "--kilo"], n + 1)
    yield Case("values", Tree(Mode(None, A("bravo"), M("sierra", dep=["bravo"], max=2))), ["--sierra", "--bravo", P2], n + 2)
    yield Case("sep", Tree(Mode(None, A("delta", sep="=", dep=["alpha"]), F("alpha"))), [["--delta=", P2], "--delta", "--alpha", P2], n)
    yield Case("inside", Tree(Mode("mm", F("alpha", dep=["kilo"]), F("kilo")), Mode("nn", F("alpha"))), ["mm", "nn", "--alpha", "--kilo"], n)
    yield Case("three", Tree(Mode(None, F("alpha"), F("bravo"), F("charlie"), F("delta", "d", dep=["alpha", "bravo", "charlie"]))), ["--alpha", "--bravo", "--charlie", "-d"], n + 2)
    yield Case("required", Tree(Mode(None, A("bravo", default="dd"), A("delta", dep=["bravo"], required=True))), ["--bravo", "--delta", P2], n + 1)
    yield Case("shared", Tree(Mode(None, F("alpha", "a"), F("bravo", "b", dep=["alpha"]), F("charlie", "c", dep=["a"]))), ["-a", "-b", "-c", "-ab", "-ba", "-abc", "-cab"], n)
    yield Case("counted", Tree(Mode(None, C("very", "v"), A("delta", dep=["very"]))), ["-v", "-vv", "--delta", P2], n)
    yield Case("grouped", Tree(Mode(None, one_of(F("alpha"), A("bravo"), default=False), F("kilo", dep=["bravo"]))), ["--alpha", "--bravo", "--kilo", P2], n)


def R15(deep):
    """groups"""
    n = 3
    yield Case("one_of", Tree(Mode(None, one_of(F("alpha", "a"), A("bravo", "b"), default=False), F("kilo", "k"))), ["--alpha", "-a", "--bravo", "-b", "--kilo", "-ka", P2], n)
    yield Case("required", Tree(Mode(None, one_of(F("alpha"), A("bravo"), required=True), one_of(F("lima"), A("mike"), default=True))), ["--alpha", "--bravo", "--lima", "--mike", P2], n + 1)
    yield Case("three", Tree(Mode(None, F("kilo"), one_of(A("bravo"), M("sierra", max=2), C("very") if False else F("alpha"), default="zz"))), ["--bravo", "--sierra", "--alpha", "--kilo", P2], n)
    yield Case("alias_group", Tree(Mode(None, alias_group(A("bravo"), A("delta"), default="dd"), F("kilo"))), ["--bravo", "--delta", "--kilo", P2], n + 1)
    yield Case("alias_group_count", Tree(Mode(None, alias_group(C("very", "v"), C("wide", "w"), default=0), F("kilo", "k"))), ["-v", "-w", "-vw", "--very", "-kw", "--kilo"], n)
    yield Case("alias_group_required", Tree(Mode(None, alias_group(M("sierra", max=2), M("tango", max=2), required=True), F("kilo"))), ["--sierra", "--tango", "--kilo", P2], n + 1)
    if deep:
        yield Case("sep", Tree(Mode(None, one_of(A("bravo", sep="="), A("delta")), POS("POS", min=0, max=1))), [["--bravo=", P2], "--bravo", "--delta", P2], n + 1)
    yield Case("three_ways", Tree(Mode(None, one_of(A("alpha"), A("bravo", num=I64), F("charlie"), required=True), F("kilo"))), ["--alpha", "--bravo", "--charlie", "--kilo", "x"], n + 1)
    yield Case("two_groups", Tree(Mode("mm", one_of(F("alpha"), A("bravo"), default=True), alias_group(A("delta"), A("echo"), required=True)), Mode("nn", F("alpha"))), ["mm", "nn", "--alpha", "--bravo", "--delta", "--echo", "x"], n + 1)
    yield Case("values_first", Tree(Mode(None, one_of(A("bravo", sep="="), M("sierra", min=2, max=2), required=True), POS("POS", min=0, max=1))), [["--bravo=", P2], "--sierra", P2], n + 1)


def R16(deep):
    """short form groups"""
    n = 3 if deep else 2
    yield Case("flags", Tree(Mode(None, F("alpha", "a"), F("bravo", "b"), F("charlie", "c"))), ["-a", "-ab", "-ba", "-abc", "-cab", "-aa", "-ax", "-xa", "-b", "--alpha"], n)
    yield Case("opaque", Tree(Mode(None, F("alpha", "a"), F("bravo", "b"), POS("POS", min=0, max=1))), [["-", printable(1)], ["-", printable(2)], P2], n)
    yield Case("arg_last", Tree(Mode(None, F("alpha", "a"), A("bravo", "b"), F("charlie", "c"))), ["-a", "-ab", "-cab", "-ba", "-abc", "-c", P2], n + 1)
    yield Case("counts", Tree(Mode(None, C("very", "v"), F("alpha", "a"))), ["-v", "-vv", "-vav", "-avv", "-vvv", "--very", "-a"], n + 1 if deep else n)
    yield Case("utf8", Tree(Mode(None, F("alpha", "\u00e9"), F("bravo", "b"), F("charlie", "\u20ac"))), ["-\u00e9", "-\u00e9b", "-b\u00e9", "-\u20ac\u00e9b", "-b\u20ac", "-\u00e9\u00e9"], n)
    yield Case("long_only", Tree(Mode(None, F("alpha"), F("bravo", "b"))), ["-b", "-bb", "-alpha", "-bravo", "--b", "-", "--"], n)
    yield Case("list", Tree(Mode(None, F("alpha", "a"), M("sierra", "s", max=2))), ["-a", "-as", "-sa", "-s", "-aas", P2], n + 1)
    yield Case("five", Tree(Mode(None, F("alpha", "a"), F("bravo", "b"), C("charlie", "c"), F("delta", "d"), A("echo", "e"))), ["-abcde", "-edcba", "-cc", "-ccc", "-ad", "-da", "-e", "x"], n)
    yield Case("mode", Tree(Mode("mm", F("alpha", "a"), F("bravo", "b")), Mode("nn", F("alpha", "a"), POS("POS", min=0, max=2))), ["mm", "nn", "-ab", "-ba", "-aa", "-a", "-b"], n + 1)
    yield Case("disabled", Tree(Mode(None, F("alpha", "a", enable="b0"), F("bravo", "b")), bools=1), ["-ab", "-ba", "-a", "-b"], n)
    yield Case("positional", Tree(Mode(None, F("alpha", "a"), POS("POS", min=0, max=3))), ["-ab", "-ba", "-aa", "-a", "-bc", "x"], n + 1)


def R17(deep):
    """value separators"""
    n = 3 if deep else 2
    yield Case("equals", Tree(Mode(None, A("bravo", sep="="), A("delta"))), ["--bravo", ["--bravo=", P3], "--bravo=", "--delta", P2, "--bravo=="], n)
    yield Case("opaque", Tree(Mode(None, A("bravo", sep="="), POS("POS", min=0, max=1))), [["--bravo", printable(1), printable(1)], ["--brav", printable(2), "x"]], n)
    yield Case("short", Tree(Mode(None, A("bravo", "b", sep="="), F("kilo", "k"))), ["-b", ["-b=", P2], "-kb=x", "-k", ["--bravo=", P2], P2], n)
    yield Case("colon", Tree(Mode(None, A("bravo", sep=":"), A("delta", sep="="))), [["--bravo:", P2], ["--bravo=", P2], ["--delta=", P2], ["--delta:", P2]], n)
    yield Case("utf8", Tree(Mode(None, A("bravo", sep="\u2192"), F("kilo"))), [["--bravo\u2192", P2], "--bravo", "--kilo", "--bravo\u2192"], n)
    yield Case("required", Tree(Mode(None, A("bravo", sep="=", required=True), A("delta", sep="=", default="dd", dep=["bravo"]))), [["--bravo=", P2], ["--delta=", P2], "--delta"], n)
    yield Case("values", Tree(Mode(None, A("bravo", "b", sep="=", num=I64, lim=(0, 9, "ct")), A("delta", "d", sep=":"))), ["--bravo=1", "-b=1", "-b=", "-d:", ["-d:", P2], "--delta::"], n)
    yield Case("list", Tree(Mode(None, M("sierra", min=2, max=2) if False else A("sierra", "s", sep="="), POS("POS", min=0, max=2))), [["-s=", P2], "-s", "=", "=x", "--=", "-=", P2], n)
    yield Case("modes", Tree(Mode("mm", A("bravo", sep="=")), Mode("nn", A("bravo"))), ["mm", "nn", ["--bravo=", P2], "--bravo", P2], n + 1)
    yield Case("alias", Tree(Mode(None, A("zulu", "z", sep="=", alias=["bravo"]), A("bravo", sep=":"), F("kilo"))), [["--zulu=", P2], "-z", ["--bravo:", P2], "--kilo"], n)


def R18(deep):
    """end markers and forwarding"""
    n = 5 if deep else 4
    yield Case("forward", Tree(Mode(None, F("kilo", "k"), FWD("--"))), ["--", "--kilo", "-k", P2], n)
    yield Case("forward_counts", Tree(Mode(None, F("kilo"), FWD("--", min=1, max=2))), ["--", "--kilo", P2], n)
    yield Case("marked", Tree(Mode(None, F("kilo"), M("sierra", marker="---"), POS("POS", min=0, max=1))), ["--sierra", "---", "--kilo", P2], n)
    yield Case("marked_positional", Tree(Mode(None, F("kilo"), POS("POS", marker="+"), POS("REST", min=0, max=1))), ["+", "--kilo", P2], n)
    yield Case("marked_counts", Tree(Mode(None, M("sierra", marker=";", min=2, max=3), F("kilo"))), ["--sierra", ";", "--kilo", P2], n)
    yield Case("opaque_marker", Tree(Mode(None, M("sierra", marker="-;"), POS("POS", min=0, max=1))), ["--sierra", ["-", printable(1)], "-;"], n - 1)
    yield Case("modes", Tree(Mode("mm", F("kilo"), FWD("--")), Mode("nn", F("kilo"))), ["mm", "nn", "--", "--kilo"], n)
    yield Case("forward_required", Tree(Mode(None, A("bravo"), FWD("--", required=True, min=1))), ["--", "--bravo", P2], n)
    yield Case("named_forward", Tree(Mode(None, F("kilo"), FWD("run"))), ["run", "--run", "--kilo", P2], n)
    yield Case("two_marked", Tree(Mode(None, M("sierra", marker=";"), M("tango", marker="."), POS("POS", min=0, max=1))), ["--sierra", "--tango", ";", ".", "x"], n)
    yield Case("long_marker", Tree(Mode(None, M("sierra", marker="--end", min=1, max=2), F("kilo"))), ["--sierra", "--end", "--en", "--kilo", "x"], n)


def R19(deep):
    """counting flags"""
    n = 4 if deep else 3
    yield Case("count", Tree(Mode(None, C("very", "v"), F("kilo", "k"))), ["-v", "-vv", "--very", "-kv", "-k"], n)
    yield Case("limits", Tree(Mode(None, C("very", "v", lim=(1, 3, "ct")), F("kilo"))), ["-v", "-vv", "--very", "--kilo"], n)
    yield Case("max", Tree(Mode(None, C("very", "v", lim=(None, 2, "ct")), POS("POS", min=0, max=1))), ["-v", "-vv", "-vvv", P2], n)
    yield Case("runtime_limits", Tree(Mode(None, C("very", "v", lim=(None, 2, "rt")))), ["-v", "-vv", "--very"], n)
    yield Case("default", Tree(Mode(None, C("very", "v", default=2), F("kilo"))), ["-v", "--very", "--kilo"], n)
    yield Case("two", Tree(Mode(None, C("very", "v"), C("wide", "w"), F("kilo", "k"))), ["-v", "-w", "-vw", "-wvw", "-kw"], n)
    yield Case("enumerated", Tree(Mode(None, C("very", "v", out="unsigned char"), F("kilo"))), ["-v", "-vv", "--very", "--kilo"], n)
    yield Case("modes", Tree(Mode("mm", C("very", "v", lim=(None, 2, "ct")), F("kilo", "k")), Mode("nn", C("very", "v"))), ["mm", "nn", "-v", "-vv", "-kv"], n)
    yield Case("mixed", Tree(Mode(None, C("very", "v"), A("bravo", "b"), POS("POS", min=0, max=1))), ["-v", "-vvvv", "-vb", "-b", P2], n)
    yield Case("long_only", Tree(Mode(None, C("very"), F("kilo"))), ["--very", "--kilo", "-very"], n + 2)
    yield Case("exact", Tree(Mode(None, C("very", "v", lim=(2, 2, "ct")), F("kilo"))), ["-v", "-vv", "-vvv", "--kilo"], n)


def R20(deep):
    """rejections say what is wrong and where"""
    n = 3 if deep else 2
    yield Case("unknown", Tree(Mode(None, F("alpha", "a"), A("bravo", "b"))), ["--alpha", "-a", "--bravo", "--alphx", "-x", "foo", "-ax", "-"], n, cut=False)
    yield Case("unknown_modes", Tree(Mode("mm", F("alpha")), Mode("nn", A("bravo", sep="="))), ["mm", "nn", "mn", "--alpha", "--bravo", "--bravo=1", "--brav=1"], n, cut=False)
    yield Case("routeless", Tree(Mode("mm", Mode("nn", F("bravo")), Mode("kk", F("alpha")), route=False), Top(F("help", "h"))), ["mm", "nn", "kk", "--alpha", "--bravo", "-h", "zz"], n + 1, cut=False)
    yield Case("kinds", Tree(Mode(None, A("bravo", required=True), M("sierra", min=2, max=2), C("very", "v", lim=(None, 1, "ct")), F("kilo", "k", dep=["bravo"]))), ["--bravo", "--sierra", "-v", "-k", "xx"], n + 2, cut=False)
    yield Case("named_tokens", Tree(Mode(None, F("alpha", "a"), one_of(F("lima", "l"), A("mike", "m"), default=False), POS("POS", min=1, max=1))), ["-a", "-l", "-m", "xx", "-al"], n + 1, cut=False)
    yield Case("counts", Tree(Mode(None, M("sierra", "s", min=2, max=3, marker=";"), A("bravo", sep="="), POS("POS", min=1, max=1))), ["-s", "--sierra", ";", "--bravo", "--bravo=1", "xx"], n + 2, cut=False)
    yield Case("groups", Tree(Mode(None, one_of(F("alpha"), A("bravo"), required=True), alias_group(C("very", "v", lim=None), C("wide", "w"), default=0), F("kilo", dep=["alpha"]))), ["--alpha", "--bravo", "-v", "--kilo", "yy"], n + 1, cut=False)
    yield Case("leftover", Tree(Top(F("help", "h")), Mode("mm", F("alpha"), POS("POS", min=0, max=1))), ["-h", "mm", "--alpha", "xx", "--help"], n + 2, cut=False)


def R21(deep):
    """modes"""
    n = 4 if deep else 3
    yield Case("nested", Tree(Mode("mm", F("alpha"), Mode("nn", F("bravo"), Mode("oo", F("charlie"))))), ["mm", "nn", "oo", "--alpha", "--bravo", "--charlie"], n)
    yield Case("siblings", Tree(Mode("mm", F("alpha"), Mode("aa", F("bravo")), Mode("bb", A("bravo"))), Mode("nn", Mode("aa", F("charlie")), F("delta"))), ["mm", "nn", "aa", "bb", "--alpha", "--bravo", P2], n)
    yield Case("anonymous", Tree(Top(F("help", "h")), Mode("mm", F("alpha")), Mode(None, F("alpha"), POS("POS", min=0, max=2))), ["mm", "--help", "-h", "--alpha", P2], n)
    yield Case("label_as_value", Tree(Mode("mm", Mode("nn", F("kilo")), A("bravo"), POS("POS", min=0, max=1))), ["mm", "nn", "--bravo", "--kilo", P2], n + 1)
    yield Case("routeless", Tree(Mode("mm", Mode("nn", F("bravo")), Mode("kk", F("alpha")), route=False), Mode("oo", POS("POS", min=0, max=1))), ["mm", "nn", "kk", "oo", "--alpha", "--bravo", P2], n)
    yield Case("opaque", Tree(Mode("mm", F("alpha")), Mode("nn", F("alpha")), Top(A("version", "v"))), [P2, "--alpha", "-v"], n)
    yield Case("four", Tree(Mode("m1", F("a1"), Mode("m2", F("a2"), Mode("m3", F("a3"), Mode("m4", F("a4")))))), ["m1", "m2", "m3", "m4", "--a2", "--a4"], n + 2)
    yield Case("similar", Tree(Mode("mode", F("alpha"), Mode("mode", F("alpha"))), Mode("modes", F("alpha"), Mode("mod", F("alpha"))), Mode("mod", F("alpha"))), ["mode", "modes", "mod", "--alpha"], n)
    yield Case("prefixed", Tree(Mode("mm", F("mm", "m")), Top(F("nn", "n"))), ["mm", "--mm", "-m", "--nn", "nn", "-n"], n)
    yield Case("required", Tree(Mode("mm", A("bravo", required=True), Mode("nn", A("bravo", default="dd"))), Mode(None, POS("POS", min=1, max=2))), ["mm", "nn", "--bravo", P2], n)


def R01(deep):
    """a second parse does not depend on the first"""
    t = 2
    yield Case("plain", Tree(Mode(None, F("alpha", "a"), A("bravo", required=True), POS("POS", min=0, max=1))), ["--alpha", "-a", "--bravo", P2], 2, twice=t)
    yield Case("counts", Tree(Mode(None, C("very", "v", lim=(None, 2, "ct")), one_of(F("lima", "l"), A("mike"), default=True))), ["-v", "-vv", "-l", "--mike"], 2, twice=t)
    yield Case("modes", Tree(Mode("mm", F("alpha"), Mode("nn", F("kilo", dep=["lima"]), F("lima"))), Mode("oo", A("bravo", sep="="))), ["mm", "nn", "oo", "--alpha", "--kilo", "--lima", "--bravo=x"], 3 if deep else 2, twice=3 if deep else t)
    yield Case("alias", Tree(Mode(None, F("zulu", "z", alias=["alpha", "very"]), F("alpha"), C("very", "v"))), ["-z", "-v", "--alpha"], 2, twice=3)
    yield Case("enable", Tree(Mode(None, F("alpha", "a", enable="b0"), M("sierra", max=2, enable="b1")), bools=2), ["-a", "--sierra", "xx"], 2, twice=t)
    yield Case("forward", Tree(Mode(None, M("sierra", marker=";", min=1, max=2), FWD("--"))), ["--sierra", ";", "--", "x"], 3, twice=3 if deep else 2)
    yield Case("groups", Tree(Mode(None, alias_group(C("very", "v"), C("wide", "w"), default=0), one_of(A("bravo", num=I64), F("alpha"), A("delta"), required=True))), ["-v", "-w", "--bravo", "--alpha", "--delta", "x"], 2, twice=2)


def S03(deep):
    """parsing writes nothing into the tree"""
    for f, n in ((R01, 2), (R18, 3), (R19, 2), (R21, 3), (R13, 2), (R14, 2), (R06, 2), (R17, 2)):
        for i, c in enumerate(f(False)):
            if f is R01 or i == 0 or deep:
                c.name, c.n, c.twice, c.frozen = f.__name__ + "_" + c.name, min(c.n, n), None, True
                yield c


def P01(deep):
    """every way of handing over a command line means the same"""
    from engine import ENTRIES
    t = lambda: Tree(Mode("mm", A("delta", required=True)), Mode(None, A("bravo", "b"), F("alpha", "a"), POS("POS", min=0, max=2)))
    n = 3 if deep else 2
    for e in ENTRIES:
        if e in ("pointers", "span", "moved", "deque", "nothing") and not deep:
            continue
        if e in ("no_program", "nothing"):
            yield Case(e, t(), ["x"], 0, entry=e)
            yield Case(e + "_required", Tree(Mode(None, A("delta", required=True))), ["x"], 0, entry=e)
            yield Case(e + "_modes", Tree(Mode("mm", A("delta"))), ["x"], 0, entry=e)
        elif e == "c_strings":
            yield Case(e, t(), [["mm", "\0"], ["--bravo", "\0"], ["-ab", "\0"], "\0", [("?", 2, 1, 255), "\0"]], n, entry=e)
        else:
            yield Case(e, t(), ["mm", "--bravo", "-ab", "", P2], n, entry=e)
    for e in ("argv", "tokens"):
        yield Case(e, t(), [["mm", "\0"], ["--bravo", "\0"], ["-ab", "\0"], "\0", [("?", 2, 1, 255), "\0"]] if e == "argv" else ["mm", "--bravo", "-ab", "", P2], n, entry=e)


def C02(deep):
    """other prefixes"""
    n = 3 if deep else 2
    for nm, l, s in (("plus", "++", "+"), ("mixed", "/", "-"), ("wide", "\u2192\u2192", "\u2192"), ("long", "no-such-", "~"), ("dash", "-", "+")) if deep else (("plus", "++", "+"), ("mixed", "/", "-"), ("wide", "\u2192\u2192", "\u2192")):
        px = (l, s)
        yield Case(nm + "_basic", Tree(Mode(None, F("alpha", "a"), F("bravo", "b"), A("delta", "d"), POS("POS", min=0, max=2))), [l + "alpha", l + "delta", s + "a", s + "ab", s + "bd", "--alpha", "-a", l, s, P2], n, prefixes=px)
        yield Case(nm + "_opaque", Tree(Mode(None, F("alpha", "a"), POS("POS", min=0, max=1))), [[s, printable(1)], [l, printable(1)], printable(3)], 2, prefixes=px)
        yield Case(nm + "_groups", Tree(Mode(None, C("very", "v"), one_of(F("lima", "l"), A("mike"), default=True), A("echo", "e", sep="="), F("zulu", "z", alias=["very"]), F("kilo", dep=["v"]))), [s + "v", s + "vv", l + "zulu", s + "l", l + "mike", s + "zv", [l + "echo=", P2], l + "echo", l + "kilo", "x"], n, prefixes=px)
        yield Case(nm + "_errors", Tree(Mode("mm", F("alpha", "a"), A("bravo", required=True)), Top(F("help", "h"))), ["mm", l + "alpha", s + "a", l + "bravo", l + "alphx", s + "x", s + "h", "--alpha", "x"], n, prefixes=px, cut=False)


def C03(deep):
    """the other implementation of compile-time strings"""
    for f in (R03, R08, R13, R14, R15, R16, R17, R18, R19, R20, R21, R11):
        for i, c in enumerate(f(False)):
            if i == 0 or (deep and i < 4):
                c.name, c.n = f.__name__ + "_" + c.name, min(c.n, 3 if deep else 2)
                c.defines = c.defines + ["AR_DISABLE_CPP20_STRINGS=true"]
                yield c


def R09(deep):
    """no bytes on the command line make parsing misbehave"""
    t = lambda: Tree(Mode(None, F("alpha", "a"), A("bravo", "b", sep="="), C("very", "\u00e9"), POS("POS", min=0, max=2)))
    for k in (1, 2, 3):
        yield Case("bytes%d" % k, t(), [any_bytes(k)], 1, safety=True)
        if k < 3 or deep:
            yield Case("short%d" % k, t(), [["-", any_bytes(k)]], 1, safety=True)
        yield Case("long%d" % k, t(), [["--", any_bytes(k)]], 1, safety=True)
    yield Case("value", t(), [["--bravo=", any_bytes(3)], ["-b=", any_bytes(2)]], 1, safety=True)
    yield Case("argv", t(), [[any_bytes(2, 1), "\0"]], 1, entry="argv", safety=True)


ALL = {k: v for k, v in list(globals().items()) if len(k) == 3 and k[0] in "RPCS" and k[1:].isdigit()}
import texts
ALL.update({k: v for k, v in vars(texts).items() if len(k) == 3 and k[0] == "H" and k[1:].isdigit()})
import unicode
ALL.update(unicode.ALL)
import suggest
ALL.update(suggest.ALL)
import langs, messages, values
ALL.update(langs.ALL)
ALL.update(messages.ALL)
ALL.update(values.ALL)
