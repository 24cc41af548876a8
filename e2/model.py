"""Parse trees: their C++ text, and an independent reading of what the documentation says parsing them means.

The reading works on tokens whose bytes are either known or symbols with a set of possible values; a question
that the set leaves open splits it."""


LONG, SHORT = "--", "-"      # the configured prefixes, set by engine.judge


class Split(Exception):
    def __init__(self, sym, parts):
        self.sym, self.parts = sym, parts


class Env:
    def __init__(self, dom):
        self.dom = dom      # symbol -> sorted [(lo, hi)]

    def restrict(self, sym, part):
        d = dict(self.dom)
        d[sym] = part
        return Env(d)

    def within(self, sym, lo, hi):
        """Does the symbol lie in [lo, hi]?"""
        yes = [(max(a, lo), min(b, hi)) for a, b in self.dom[sym] if max(a, lo) <= min(b, hi)]
        no = [(a, min(b, lo - 1)) for a, b in self.dom[sym] if a < lo] + [(max(a, hi + 1), b) for a, b in self.dom[sym] if b > hi]
        if not no:
            return True
        if not yes:
            return False
        raise Split(sym, [yes, sorted(no)])


class S(tuple):             # a symbolic byte
    pass


def is_byte(env, cell, c):
    return env.within(cell[0], c, c) if isinstance(cell, S) else cell == c


def eq(env, tok, text):
    if isinstance(text, str):
        text = text.encode()
    return len(tok) == len(text) and all(is_byte(env, a, b) for a, b in zip(tok, text))


def starts(env, tok, text):
    text = text.encode()
    return len(tok) >= len(text) and all(is_byte(env, a, b) for a, b in zip(tok, text))


class Err(Exception):
    """codes: the acceptable error codes; tokens: the tokens named, None if not stated."""
    def __init__(self, codes, tokens=None, more=False):
        self.codes, self.tokens, self.more = (codes,) if isinstance(codes, str) else codes, tokens, more


def characters(cells):
    """Unknown bytes are printable ASCII here."""
    out = []
    for c in cells:
        if isinstance(c, int) and 0x80 <= c < 0xc0:
            out[-1].append(c)
        else:
            out.append([c])
    return out


INF = 1 << 62


def lit(s):
    return list(s.encode())


class Node:
    """A leaf."""
    multi_stage = False
    has_value = True

    def __init__(self, kind, long=None, short=None, none=None, disp=None, *, sep=None, required=False, default=None, min=None, max=None,
                 enable=None, marker=None, alias=None, dep=None, lim=None, num=None, out=None, vec=False, extra=()):
        self.kind, self.long, self.short, self.none, self.disp = kind, long, short, none, disp
        self.sep, self.required, self.default, self.enable, self.marker = sep, required, default, enable, marker
        self.alias, self.dep, self.lim, self.num, self.extra = alias, dep, lim, num, list(extra)
        self.vec = kind in ("multi", "positional", "forwarding") and not (kind == "positional" and not vec and max == 1 and min == 1)
        self.min = min if min is not None else {"flag": 0, "count": 0, "arg": 1, "multi": 1, "positional": 0, "forwarding": 0}[kind]
        self.max = max if max is not None else {"flag": 0, "count": 0, "arg": 1, "multi": INF, "positional": INF, "forwarding": INF}[kind]
        self.explicit = (min, max)
        self.out = out          # enum of counting flags etc.
        self.multi_stage = kind == "count"
        self.has_value = alias is None
        self.named = kind != "positional"
        self.parent = None

    # -- C++
    def cpp(self):
        p = []
        if self.kind in ("positional",):
            p.append('"%s"_S' % self.disp)
        elif self.kind == "forwarding":
            p.append('"%s"_S' % self.none)
        else:
            if self.long:
                p.append('"%s"_S' % self.long)
            if self.short:
                p.append('"%s"_S' % self.short)
        if self.sep:
            p.append('arp::value_separator_t{"%s"_S}' % self.sep)
        if self.required and self.enable is None:
            p.append("arp::required")
        vt = self.vtype()
        if self.default is not None and not (self.required and self.enable is not None):
            p.append("arp::default_value<%s>{%s}" % (vt, self.cdefault()))
        if self.enable is not None:
            p.append("arp::runtime_enable_required<%s>{%s, %s}" % (vt, self.enable, self.cdefault() if self.default is not None else vt + "{}") if self.required else "arp::runtime_enable<>{%s}" % self.enable)
        mn, mx = self.explicit
        if self.kind not in ("flag", "count", "arg") and (mn is not None or mx is not None):
            if mn is not None and mn == mx:
                p.append("arp::fixed_count<%d>" % mn)
            elif mx is None:
                p.append("arp::min_count<%d>" % mn)
            elif mn is None:
                p.append("arp::max_count<%d>" % mx if self.kind != "multi" else "arp::min_max_count<1, %d>" % mx)
            else:
                p.append("arp::min_max_count<%d, %d>" % (mn, mx))
        if self.marker:
            p.append('arp::token_end_marker_t{"%s"_S}' % self.marker)
        for nm, l in (("alias", self.alias), ("dependent", self.dep)):
            if l:
                p.append("arp::%s(%s)" % (nm, ", ".join('arp::long_name_t{"%s"_S}' % x if len(x) > 1 else 'arp::short_name_t{"%s"_S}' % x for x in l)))
        if self.lim:
            p.append(self.lim_cpp())
        if self.num:
            p.append("arp::custom_parser<%s>{[](std::string_view t) -> %s { ev_sv(\"parse\", t); return static_cast<%s>(ev_sym(%dull, %dull)); }}" % ((self.num[0],) * 3 + self.num[1]))
        p += self.extra
        fn = {"flag": "ar::flag", "count": "ar::counting_flag<%s>", "arg": "ar::arg<%s>", "multi": "ar::multi_arg<%s>", "positional": "ar::positional_arg<%s>", "forwarding": "ar::forwarding_arg"}[self.kind]
        if "%" in fn:
            fn %= vt
        return "%s(%s)" % (fn, ", ".join(p))

    def vtype(self):
        if self.kind == "flag":
            return "bool"
        if self.kind == "count":
            return self.out or "std::size_t"
        e = self.num[0] if self.num else "std::string_view"
        return "std::vector<%s>" % e if self.vec else e

    def cdefault(self):
        d = self.default
        if isinstance(d, str):
            return '"%s"' % d
        if isinstance(d, (list, tuple)):
            return "{" + ", ".join('"%s"' % x if isinstance(x, str) else "%d" % x for x in d) + "}"
        return ("true" if d else "false") if isinstance(d, bool) else "%d" % d

    def lim_cpp(self):
        lo, hi, how = self.lim
        t = self.num[0] if self.num else self.vtype()
        a = lambda v: "%s{%s}" % (t, "(-%dll - 1)" % (-v - 1) if v < 0 else "%d" % v + ("ull" if v >= 1 << 63 else ""))
        if how == "ct":
            return "arp::min_max_value<%s, %s>()" % (a(lo), a(hi)) if lo is not None and hi is not None else "arp::min_value<%s>()" % a(lo) if hi is None else "arp::max_value<%s>()" % a(hi)
        return "arp::min_max_value<%s>(%s, %s)" % (t, a(lo), a(hi)) if lo is not None and hi is not None else "arp::min_value<%s>(%s)" % (t, a(lo)) if hi is None else "arp::max_value<%s>(%s)" % (t, a(hi))

    # -- meaning
    def token(self):
        """How messages name the node."""
        if self.disp:
            return lit(self.disp)
        return lit(LONG + self.long if self.long else SHORT + self.short if self.short else self.none)

    def matches(self, env, pfx, name, tok=None):
        if self.none:
            return bool(tok is not None and tok.pfx is None and eq(env, tok.cells, self.none))
        return bool((self.long and pfx == "l" and eq(env, name, self.long)) or (self.short and pfx == "s" and eq(env, name, self.short)))

    def leaves(self):
        yield self


class Group:
    """one_of or alias_group."""
    multi_stage = False
    has_value = True

    def __init__(self, kind, *children, required=False, default=None, disp=None, lim=None):
        self.kind, self.children, self.required, self.default, self.disp, self.lim = kind, list(children), required, default, disp, lim
        for c in children:
            c.parent = self
        self.enable = None

    def values(self):
        return [c for c in self.children if c.has_value]

    def single(self):
        return self.kind == "alias_group" or len(self.values()) == 1

    def vtype(self):
        v = [c.vtype() for c in self.values()]
        return v[0] if self.single() else "std::variant<%s>" % ", ".join(v)

    def cpp(self):
        p = ["arp::required"] if self.required else []
        if self.default is not None:
            d = self.default
            first = self.values()[0]
            c = ('std::string_view{"%s"}' % d if isinstance(d, str) else ("true" if d else "false") if isinstance(d, bool) else "%s{%d}" % (first.vtype(), d))
            p.append("arp::default_value<%s>{%s}" % (self.vtype(), c))
        if self.lim:
            lo, hi, how = self.lim
            t = self.values()[0].vtype()
            p.append("arp::min_max_value<%s{%d}, %s{%d}>()" % (t, lo, t, hi))
        if self.disp:
            p.append('arp::display_name_t{"%s"_S}' % self.disp)
        return "ard::%s(%s)" % (self.kind, ", ".join([c.cpp() for c in self.children] + p))

    def token(self):
        n = self.disp or ("One of: " if self.kind == "one_of" else "Alias Group: ")
        return lit(n) + lit(",".join(bytes(c.token()).decode() for c in self.children))

    def leaves(self):
        return iter(self.children)


class Mode:
    def __init__(self, name, *children, route=True, enable=None):
        self.name, self.children, self.route, self.enable = name, list(children), route, enable
        self.modes = [c for c in children if isinstance(c, Mode)]
        self.nodes = [c for c in children if not isinstance(c, Mode)]
        self.id = None

    def cpp(self):
        p = ['"%s"_S' % self.name] if self.name else []
        if self.enable is not None:
            p.append("arp::runtime_enable<>{%s}" % self.enable)
        if self.route:
            p.append('arp::router{[](auto&&... v) { ev_log("route", %d); (lg(v), ...); }}' % self.id)
        return "ar::mode(%s)" % ",\n      ".join(p + [c.cpp() for c in self.children])

    def leaves(self):
        for n in self.nodes:
            yield from n.leaves()


class Top:
    """A routed leaf directly under the root."""
    def __init__(self, node):
        self.node = node
        self.id = None

    def cpp(self):
        c = self.node.cpp()
        return c[:-1] + ', arp::router{[](auto&&... v) { ev_log("route", %d); (lg(v), ...); }})' % self.id


class Tree:
    def __init__(self, *children, bools=0):
        self.children, self.bools = list(children), bools
        n = [0]

        def number(m):
            m.id = n[0]
            n[0] += 1
            for c in getattr(m, "modes", []):
                number(c)
        for c in children:
            number(c)

    def cpp(self):
        return "ar::root(arp::validation::default_validator, arp::exception_translator<codes>,\n    %s)" % ",\n    ".join(c.cpp() for c in self.children)


# ---------------------------------------------------------------- meaning

class Tok:
    """pfx: None as typed, 's' split off a short form group"""
    def __init__(self, cells, pfx=None):
        self.cells, self.pfx = cells, pfx

    def text(self):
        return (list(SHORT.encode()) if self.pfx == "s" else []) + list(self.cells)


def classify(env, t):
    if t.pfx:
        return t.pfx, t.cells
    if starts(env, t.cells, LONG):
        return "l", t.cells[len(LONG.encode()):]
    if starts(env, t.cells, SHORT):
        return "s", t.cells[len(SHORT.encode()):]
    return "n", t.cells


class Target:
    def __init__(self, leaf, values, source):
        self.leaf, self.values, self.source = leaf, values, source


class Run:
    def __init__(self, tree, env, bools, parsed):
        self.tree, self.env, self.bools = tree, env, bools
        self.parsed = parsed            # symbols handed out by custom parsers
        self.events = []

    def enabled(self, n):
        e = n.enable
        if e is None:
            return True
        if e in ("true", "false"):
            return e == "true"
        return bool(self.bools[int(e[1:])])

    # one leaf against the front of the remaining tokens: (targets, rest), or None
    def claim_leaf(self, L, args, mode, done, verify):
        env = self.env
        if not self.enabled(L) or not args:
            return None
        err = None
        rest = args[1:]
        first = args[0]
        if L.named:
            pfx, name = classify(env, first)
            if L.sep:
                sep = L.sep.encode()
                at = next((i for i in range(len(name) - len(sep) + 1) if all(is_byte(env, name[i + k], sep[k]) for k in range(len(sep)))), None)
                if at is None:
                    if not L.matches(env, pfx, name):
                        return None
                    verify(L)
                    raise Err("missing_value_separator", [L.token()])
                value = name[at + len(sep):]
                if not value:
                    return None
                if not L.matches(env, pfx, name[:at]):
                    return None
                rest = [Tok(value)] + rest
                n_here = 1 if L.min == L.max == 1 else None
            elif L.kind in ("flag", "count") and L.short and pfx == "s" and len(name) > len(L.short.encode()):
                k = len(L.short.encode())
                if not eq(env, name[:k], L.short):
                    return None
                rest = [Tok(c, "s") for c in characters(name[k:])] + rest
                n_here = None
            else:
                if not L.matches(env, pfx, name, first):
                    return None
        else:
            rest = args
        if L.marker:
            at = next((i for i, t in enumerate(rest) if t.pfx is None and eq(env, t.cells, L.marker)), None)
            took = rest if at is None else rest[:at]
            rest2 = [] if at is None else rest[at + 1:]
            if len(took) > L.max:
                err = Err("maximum_count_exceeded", [L.token()])
            elif len(took) < L.min:
                err = Err("minimum_count_not_reached", [L.token()])
        else:
            if len(rest) < L.min:
                err = Err(("minimum_count_not_reached", "too_few_values_for_alias") if L.alias else "minimum_count_not_reached", [L.token()])
            n = min(len(rest), L.max)
            took, rest2 = rest[:n], rest[n:]
        targets = None
        if L.alias and err is None:
            targets = [Target(t, took, L) for t in self.resolve(L, mode) if self.enabled(t)]
            if not targets:
                return None
        if L.dep and err is None:
            for d in L.dep:
                if not any(self.names(t.leaf, d) for t in done):
                    target = next(x for x in mode.leaves() if self.names(x, d))
                    err = Err("dependent_argument_missing", [target.token()])
                    break
        verify(L)
        if err:
            raise err
        return targets if targets is not None else [Target(L, took, L)], rest2

    @staticmethod
    def names(leaf, n):
        return leaf.long == n if len(n) > 1 else leaf.short == n

    def resolve(self, L, mode, seen=()):
        want = []
        for x in mode.leaves():
            if any(self.names(x, n) for n in L.alias):
                want += self.resolve(x, mode) if x.alias else [x]
        return [x for x in mode.leaves() if x in want]

    def mode_tokens(self, m, args):
        """The targets of a mode, after its label."""
        used = set()
        targets = []
        while args:
            front = args[0]
            got = None
            for i, c in enumerate(m.nodes):
                def verify(leaf, c=c, i=i):
                    if isinstance(c, Group) and c.kind == "one_of":
                        if any(t.source in c.children and t.source is not leaf for t in targets):
                            raise Err("one_of_selected_type_mismatch", [c.token()])
                    if leaf.named and not leaf.multi_stage and i in used:
                        raise Err("argument_has_already_been_set", [front.text()])
                kids = c.children if isinstance(c, Group) else [c]
                for k in kids:
                    if not k.named and i in used:
                        continue
                    got = self.claim_leaf(k, args, m, targets, verify)
                    if got:
                        break
                if got:
                    used.add(i)
                    targets += got[0]
                    args = got[1]
                    break
            if not got:
                if len(used) == len(m.children):
                    raise Err("unhandled_arguments", [t.text() for t in args])
                raise Err(("unknown_argument", "unknown_argument_with_suggestion"), [front.text()], more=True)
        return targets

    def value(self, L, tok):
        if not L.num:
            return ("text", tok.cells)
        self.events.append(("parse$", list(tok.cells)))
        if not self.parsed:
            raise Missing("a value is never parsed")
        return ("sym", self.parsed.pop(0), L.num)

    def check_limits(self, lim, v, who):
        lo, hi, _ = lim
        if v[0] == "list":
            if lo is not None and len(v[1]) < lo:
                raise Err("minimum_value_not_reached", [who.token()])
            if hi is not None and len(v[1]) > hi:
                raise Err("maximum_value_exceeded", [who.token()])
            return
        if v[0] == "sym":
            signed = not v[2][0].startswith("std::u") and v[2][0] != "std::size_t"
            bits = {"std::int64_t": 64, "std::uint64_t": 64, "std::size_t": 64, "int": 32, "std::int32_t": 32, "std::uint8_t": 8}[v[2][0]]

            def below(limit):           # value < limit, on the unsigned image of the symbol
                if not signed:
                    return limit > 0 and self.env.within(v[1], 0, limit - 1)
                half, full = 1 << (bits - 1), 1 << bits
                if limit >= 0:
                    return (limit > 0 and self.env.within(v[1], 0, limit - 1)) or self.env.within(v[1], half, full - 1)
                return limit > -half and self.env.within(v[1], half, full + limit - 1)
            if lo is not None and below(lo):
                raise Err("minimum_value_not_reached", [who.token()])
            if hi is not None and not (below(hi + 1) if hi + 1 <= ((1 << (bits - 1)) - 1 if signed else (1 << bits) - 1) else True):
                raise Err("maximum_value_exceeded", [who.token()])
            return
        n = v[1]
        if lo is not None and n < lo:
            raise Err("minimum_value_not_reached", [who.token()])
        if hi is not None and n > hi:
            raise Err("maximum_value_exceeded", [who.token()])

    def leaf_value(self, t):
        L = t.leaf
        if L.kind == "flag":
            return ("bool", 1)
        if L.kind == "count":
            return ("num", 1)
        if L.vec:
            v = ("list", [self.value(L, x) for x in t.values])
        else:
            v = self.value(L, t.values[0]) if t.values else ("text", [])
        if L.lim:
            self.check_limits(L.lim, v, L)
        return v

    def const(self, L, d):
        if isinstance(d, bool):
            return ("bool", int(d))
        if isinstance(d, str):
            return ("text", lit(d))
        if isinstance(d, (list, tuple)):
            return ("list", [self.const(L, x) for x in d])
        return ("num", d)

    def empty(self, L):
        if L.kind == "flag":
            return ("bool", 0)
        if L.kind == "count" or L.num:
            return ("list", []) if L.vec else ("num", 0)
        return ("list", []) if L.vec else ("text", [])

    def mode_values(self, m, targets):
        res = {}
        for t in targets:
            v = self.leaf_value(t)
            c = t.leaf.parent or t.leaf
            if t.leaf.multi_stage:
                old = res.get(c, ("num", 0))
                res[c] = ("num", old[1] + 1)
            else:
                if c in res:
                    raise Err("argument_has_already_been_set", [t.leaf.token()])
                if isinstance(c, Group) and not c.single():
                    v = ("alternative", c.values().index(t.leaf), v)
                res[c] = v
        for c in m.nodes:
            if not c.has_value or c in res:
                continue
            first = c.values()[0] if isinstance(c, Group) else c
            if c.required and self.enabled(c):
                raise Err("missing_required_argument", [c.token()])
            v = self.const(first, c.default) if c.default is not None else self.empty(first)
            if isinstance(c, Group) and not c.single():
                v = ("alternative", 0, v)
            if c.lim:
                self.check_limits(c.lim, v, c)
            res[c] = v
        for c in m.nodes:
            if c in res and c.lim and (c.multi_stage or (isinstance(c, Group) and any(k.multi_stage for k in c.children))):
                self.check_limits(c.lim, res[c], c)
        return [res[c] for c in m.nodes if c.has_value]

    def route(self, ident, values):
        self.events.append(("route", ident))

        def put(v):
            if v[0] == "text":
                self.events.append(("text$", list(v[1])))
            elif v[0] == "list":
                self.events.append(("list", len(v[1])))
                for x in v[1]:
                    put(x)
            elif v[0] == "alternative":
                self.events.append(("alternative", v[1]))
                put(v[2])
            elif v[0] == "sym":
                self.events.append(("num", S((v[1],))))
            else:
                self.events.append((v[0], v[1]))
        for v in values:
            put(v)

    def try_mode(self, m, args):
        """None if the mode does not claim the front token."""
        env = self.env
        if not self.enabled(m):
            return None
        if m.name:
            if not args:
                return None
            pfx, name = classify(env, args[0])
            if pfx != "n" or not eq(env, name, m.name):
                return None
            args = args[1:]
            if args:
                for c in m.modes:
                    r = self.try_mode(c, args)
                    if r:
                        return r
        return m, self.mode_tokens(m, args)

    def run(self, args):
        """The events that parsing must cause."""
        front = args[0] if args else None
        try:
            for c in self.tree.children:
                if isinstance(c, Top):
                    got = self.claim_leaf(c.node, args, None, [], lambda leaf: None) if args else None
                    if got:
                        if got[1]:
                            raise Err("unhandled_arguments", [t.text() for t in got[1]])
                        self.route(c.id, [self.leaf_value(got[0][0])])
                        return self.events + [("ok",)]
                    continue
                got = self.try_mode(c, args)
                if got:
                    m, targets = got
                    values = self.mode_values(m, targets)
                    if not m.route:
                        raise Err("mode_requires_arguments", [lit(m.name)])
                    self.route(m.id, values)
                    return self.events + [("ok",)]
            if front is None or not front.cells:
                raise Err("no_arguments_passed", [])
            raise Err(("unknown_argument", "unknown_argument_with_suggestion"), [front.text()], more=True)
        except Err as e:
            return self.events + [("err", e)]


class Missing(Exception):
    pass
