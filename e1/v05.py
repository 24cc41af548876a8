"""Aliases and dependencies name real, other, compatible nodes, and never go in circles."""
import itertools, random
from common import *

L = lambda n: 'arp::long_name_t{"%s"_S}' % n
S = lambda n: 'arp::short_name_t{"%s"_S}' % n
FL = lambda n, p="": 'ar::flag("%s"_S%s)' % (n, p and ", " + p)
AR = lambda n, p="": 'ar::arg<int>("%s"_S%s)' % (n, p and ", " + p)
AL = lambda *x: "arp::alias_t{%s}" % ", ".join(x)
DE = lambda *x: "arp::dependent_t{%s}" % ", ".join(x)


def cyclic(g):
    """The last edge of some circle in {node: [targets]}, or None."""
    state = {}

    def go(n):
        state[n] = 1
        for t in g[n]:
            if state.get(t) == 1:
                return (n, t)
            if t not in state:
                e = go(t)
                if e:
                    return e
        state[n] = 2
    for n in g:
        if n not in state:
            e = go(n)
            if e:
                return e


def graphs(f, what, P, thorough):
    """Circular graphs of up to four nodes; thorough: every graph over three nodes, and many over four, in every order of targets."""
    def code(g):
        return anon(*[FL(n * 3, P(*[L(t * 3) for t in ts]) if ts else "") for n, ts in g.items()])

    def add(g):
        name = "%s.graph.%s" % (what, ",".join(n + "".join(ts) for n, ts in g.items()))
        if name in f.names:
            return
        if not cyclic(g):
            f.names.add(name)
            return f.good(name, code(g), "a graph without a circle")
        h = {n: list(ts) for n, ts in g.items()}
        while cyclic(h):
            n, t = cyclic(h)
            h[n].remove(t)
        f.pair(name, code(g), code(h), "a circle somewhere in the graph %s" % ", ".join("%s->%s" % (n, "+".join(ts)) for n, ts in g.items() if ts))
    # every circular graph over four nodes with up to four edges, one order of declaration each; its twin lacks one edge
    ns = "abcd"
    rnd = random.Random(7)

    def canonical(g):
        return min(tuple(sorted((m[n], tuple(m[t] for t in g[n])) for n in ns)) for m in (dict(zip(ns, p)) for p in itertools.permutations(ns)))

    done = set()
    edges = [(x, y) for x in ns for y in ns if x != y]
    for k in range(2, 5):
        for es in itertools.combinations(edges, k):
            for ts in itertools.product(*[list(itertools.permutations([t for s, t in es if s == n])) for n in ns]):
                g = {n: list(t) for n, t in zip(ns, ts)}
                if not cyclic(g) or canonical(g) in done:
                    continue
                done.add(canonical(g))
                h = {n: list(t) for n, t in g.items()}
                while cyclic(h):
                    n, t = cyclic(h)
                    h[n].remove(t)
                h = {n: list(t) for n, t in canonical(h)}
                for again in range(4 if thorough else 1):
                    m = dict(zip(ns, rnd.sample(ns, 4)))
                    q = {m[n]: [m[t] for t in g[n]] for n in rnd.sample(ns, 4)}
                    name = "%s.graph.%s" % (what, ",".join(n + "".join(ts) for n, ts in q.items()))
                    if name not in f.names:
                        f.pair(name, code(q), code(h), "a circle somewhere in the graph %s" % ", ".join("%s->%s" % (n, "+".join(ts)) for n, ts in q.items() if ts))
    if not thorough:
        return
    subsets = lambda n, ns: [list(p) for k in range(len(ns)) for p in itertools.permutations([x for x in ns if x != n], k)]
    abc = "abc"
    for a in subsets("a", abc):
        for b in subsets("b", abc):
            for c in subsets("c", abc):
                add({"a": a, "b": b, "c": c})
    done = [0, 0]
    while min(done) < 150:
        ns = "abcd" if rnd.random() < .7 else "abcde"
        g = {n: rnd.choice([x for x in subsets(n, ns) if len(x) <= 3]) if rnd.random() < .8 else [] for n in ns}
        k = bool(cyclic(g))
        if sum(map(len, g.values())) > 6 or done[k] >= 150:
            continue
        done[k] += 1
        add(g)


def families(thorough):
    f = Family("V05")
    ctx = {
        "anon": lambda *ch: anon(*ch),
        "named": lambda *ch: tree(mode('"mode1"_S', *ch)),
        "nested": lambda *ch: tree(mode('"mode1"_S', FL("outer"), mode('"mode2"_S', *ch))),
    }
    for what, P in (("alias", AL), ("dependent", DE)):
        for cn, t in ctx.items():
            f.pair("%s.unknown-long.%s" % (what, cn), t(FL("aaa", P(L("zzz"))), FL("bbb")), t(FL("aaa", P(L("bbb"))), FL("bbb")),
                   what + " of a name that no node has")
            f.pair("%s.unknown-short.%s" % (what, cn), t(FL("aaa", P(S("z"))), FL("b")), t(FL("aaa", P(S("b"))), FL("b")),
                   what + " of a short name that no node has")
            f.pair("%s.kind.%s" % (what, cn), t(FL("aaa", P(S("b"))), FL("bbb")), t(FL("aaa", P(L("bbb"))), FL("bbb")),
                   what + " of a short name where only a long name is like that")
            f.pair("%s.second-unknown.%s" % (what, cn), t(FL("aaa", P(L("bbb"), L("zzz"))), FL("bbb"), FL("ccc")),
                   t(FL("aaa", P(L("bbb"), L("ccc"))), FL("bbb"), FL("ccc")), what + " whose second name is unknown")
            f.pair("%s.self.%s" % (what, cn), t(FL("aaa", P(L("aaa"))), FL("bbb")), t(FL("aaa", P(L("bbb"))), FL("bbb")),
                   what + " of the node itself")
            f.pair("%s.self-second.%s" % (what, cn), t(FL("aaa", P(L("bbb"), L("aaa"))), FL("bbb"), FL("ccc")),
                   t(FL("aaa", P(L("bbb"), L("ccc"))), FL("bbb"), FL("ccc")), what + " of another node and the node itself")
            f.pair("%s.cycle2.%s" % (what, cn), t(FL("aaa", P(L("bbb"))), FL("bbb", P(L("aaa")))),
                   t(FL("aaa", P(L("bbb"))), FL("bbb")), "two nodes that are %s of each other" % what)
            f.pair("%s.cycle3.%s" % (what, cn), t(FL("aaa", P(L("bbb"))), FL("bbb", P(L("ccc"))), FL("ccc", P(L("aaa")))),
                   t(FL("aaa", P(L("bbb"))), FL("bbb", P(L("ccc"))), FL("ccc")), "a three node %s cycle" % what)
            f.pair("%s.twice.%s" % (what, cn), t(FL("aaa", P(L("bbb"), S("b"))), 'ar::flag("bbb"_S, "b"_S)'),
                   t(FL("aaa", P(L("bbb"))), 'ar::flag("bbb"_S, "b"_S)'), "one node named twice in " + what)
            f.pair("%s.twice-far.%s" % (what, cn), t(FL("aaa", P(L("bbb"), L("ccc"), S("b"))), 'ar::flag("bbb"_S, "b"_S)', FL("ccc")),
                   t(FL("aaa", P(L("bbb"), L("ccc"))), 'ar::flag("bbb"_S, "b"_S)', FL("ccc")), "one node named twice in " + what)
        f.pair(what + ".cycle4", anon(FL("aaa", P(L("bbb"))), FL("bbb", P(L("ccc"))), FL("ccc", P(L("ddd"))), FL("ddd", P(L("aaa")))),
               anon(FL("aaa", P(L("bbb"))), FL("bbb", P(L("ccc"))), FL("ccc", P(L("ddd"))), FL("ddd")), "a four node cycle")
        f.pair(what + ".cycle-second", anon(FL("aaa", P(L("xxx"), L("bbb"))), FL("bbb", P(L("yyy"), L("aaa"))), FL("xxx"), FL("yyy")),
               anon(FL("aaa", P(L("xxx"), L("bbb"))), FL("bbb", P(L("yyy"), L("xxx"))), FL("xxx"), FL("yyy")),
               "a cycle through second names")
        f.pair(what + ".cycle-tail", anon(FL("aaa", P(L("bbb"))), FL("bbb", P(L("ccc"))), FL("ccc", P(L("bbb")))),
               anon(FL("aaa", P(L("bbb"))), FL("bbb", P(L("ccc"))), FL("ccc")), "a cycle that the first node only leads into")
        f.pair(what + ".other-mode", tree(mode('"mode1"_S', FL("aaa", P(L("bbb"))), FL("ccc")), mode('"mode2"_S', FL("bbb"))),
               tree(mode('"mode1"_S', FL("aaa", P(L("ccc"))), FL("ccc")), mode('"mode2"_S', FL("bbb"))),
               what + " of a node in a sibling mode")
        f.pair(what + ".outer-mode", tree(mode('"mode1"_S', FL("ccc"), mode('"mode2"_S', FL("aaa", P(L("ccc"))), FL("bbb")))),
               tree(mode('"mode1"_S', FL("ccc"), mode('"mode2"_S', FL("aaa", P(L("bbb"))), FL("bbb")))),
               what + " of a node in an outer mode")
        f.pair(what + ".non-name", anon(FL("aaa", P('arp::description_t{"bbb"_S}')), FL("bbb")),
               anon(FL("aaa", P(L("bbb"))), FL("bbb")), what + " given something that is not a name")
        f.pair(what + ".non-policy", anon(FL("aaa", P("42")), FL("bbb")),
               anon(FL("aaa", P(L("bbb"))), FL("bbb")), what + " given something that is not a policy")
        f.pair(what + ".mixed", anon(FL("aaa", P(L("bbb"), 'arp::description_t{"ccc"_S}')), FL("bbb"), FL("ccc")),
               anon(FL("aaa", P(L("bbb"), L("ccc"))), FL("bbb"), FL("ccc")), what + " given a name and something that is none")
        graphs(f, what, P, thorough)
    # self alias through the other name
    f.pair("alias.self-short", anon('ar::flag("aaa"_S, "a"_S, %s)' % AL(S("a")), FL("bbb")),
           anon('ar::flag("aaa"_S, "a"_S, %s)' % AL(L("bbb")), FL("bbb")), "alias of the node's own short name")
    f.pair("dependent.self-short", anon('ar::flag("aaa"_S, "a"_S, %s)' % DE(S("a")), FL("bbb")),
           anon('ar::flag("aaa"_S, "a"_S, %s)' % DE(L("bbb")), FL("bbb")), "dependent on the node's own short name")
    # an alias forwards its tokens, so counts must agree, and the owner must not use them
    f.pair("alias.count.flag-arg", anon(FL("aaa", AL(L("bbb"))), AR("bbb")), anon(FL("aaa", AL(L("bbb"))), FL("bbb")),
           "a flag is alias of an argument")
    f.pair("alias.count.arg-flag", anon(AR("aaa", AL(L("bbb"))), FL("bbb")), anon(AR("aaa", AL(L("bbb"))), AR("bbb")),
           "an argument is alias of a flag")
    f.pair("alias.count.second", anon(AR("aaa", AL(L("ccc"), L("bbb"))), FL("bbb"), AR("ccc")),
           anon(AR("aaa", AL(L("ccc"), L("bbb"))), AR("bbb"), AR("ccc")), "the second alias target has another count")
    f.pair("alias.count.multi", anon(AR("aaa", AL(L("bbb"))), 'ar::multi_arg<VI>("bbb"_S, arp::fixed_count<2>)'),
           anon(AR("aaa", AL(L("bbb"))), AR("bbb")), "an argument is alias of a pair")
    f.pair("alias.count.var-target", anon(AR("aaa", AL(L("bbb"))), 'ar::multi_arg<VI>("bbb"_S)'),
           anon(AR("aaa", AL(L("bbb"))), AR("bbb")), "an argument is alias of an open-ended list")
    f.pair("alias.count.var-owner", anon('ar::multi_arg<VI>("bbb"_S, arp::fixed_count<2>)', 'ar::multi_arg<VI>("aaa"_S, %s)' % AL(L("bbb"))),
           anon('ar::multi_arg<VI>("bbb"_S, arp::fixed_count<2>)', 'ar::multi_arg<VI>("aaa"_S, arp::fixed_count<2>)'),
           "an open-ended list is an alias")
    f.pair("alias.owner.minmax", anon(AR("aaa", "arp::min_max_value<1, 2>(), " + AL(L("bbb"))), AR("bbb")),
           anon(AR("aaa", AL(L("bbb"))), AR("bbb")), "an alias that validates a value it never has")
    f.pair("alias.owner.custom", anon(AR("aaa", "arp::custom_parser<int>{[](std::string_view){return 1;}}, " + AL(L("bbb"))), AR("bbb")),
           anon(AR("aaa", AL(L("bbb"))), AR("bbb")), "an alias that parses a value it never has")
    # groups
    f.pair("alias.in-one_of", anon("ard::one_of(arp::required, %s, %s)" % (FL("aaa", AL(L("zzz"))), AR("bbb")), FL("ccc")),
           anon("ard::one_of(arp::required, %s, %s)" % (FL("aaa", AL(L("ccc"))), AR("bbb")), FL("ccc")), "an alias of nothing in a group")
    f.pair("dependent.in-one_of", anon("ard::one_of(arp::required, %s, %s)" % (FL("aaa", DE(L("zzz"))), AR("bbb")), FL("ccc")),
           anon("ard::one_of(arp::required, %s, %s)" % (FL("aaa", DE(L("ccc"))), AR("bbb")), FL("ccc")), "dependent on nothing in a group")
    # legal uses
    f.good("ok.chain", anon(FL("aaa", AL(L("bbb"))), FL("bbb", AL(L("ccc"))), FL("ccc")), "an alias of an alias")
    f.good("ok.diamond", anon(FL("aaa", AL(L("bbb"), L("ccc"))), FL("bbb", AL(L("ddd"))), FL("ccc", AL(L("ddd"))), FL("ddd")), "two ways to one target")
    f.good("ok.dep-diamond", anon(FL("aaa", DE(L("bbb"), L("ccc"))), FL("bbb", DE(L("ddd"))), FL("ccc", DE(L("ddd"))), FL("ddd")), "two ways to one target")
    f.good("ok.both", anon(FL("aaa", AL(L("ccc")) + ", " + DE(L("bbb"))), FL("bbb"), FL("ccc")), "alias and dependent")
    f.good("ok.backward", anon(FL("bbb"), FL("aaa", AL(L("bbb")))), "a target in front of its alias")
    f.good("ok.count-multi", anon('ar::multi_arg<VI>("aaa"_S, arp::fixed_count<2>, %s)' % AL(L("bbb")), 'ar::multi_arg<VI>("bbb"_S, arp::fixed_count<2>)'), "lists of one fixed length")
    return f
