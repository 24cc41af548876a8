"""Error messages: templates, translations, and what is said about codes nobody translated."""
from bodies import Body
from model import S, is_byte

PRE = {0: "--", 1: "-", 2: ""}

# the documented template language, read independently: (text, joining or None)*
def pieces(t):
    o, cur, i = [], "", 0
    while i < len(t):
        if t[i] == "{":
            j = t.index("}", i)
            o += [cur, (t[i + 1:j],)]
            cur, i = "", j + 1
        else:
            cur += t[i]
            i += 1
    return o + [cur]


def render(t, tokens):
    """Cells of the message: known characters as ints, unknown ones as symbols."""
    ps = pieces(t)
    if len(ps) == 1 and tokens:
        ps = [t + ": ", (", ",), ""]
    left, out = list(tokens), []
    for p in ps:
        if isinstance(p, str):
            out += list(p.encode())
        elif left:
            out += left.pop(0)
            if p[0]:
                for k in left:
                    out += list(p[0].encode()) + k
                left = []
    return out


class Message(Body):
    """cases: C++ expression throwing or formatting, given tokens; expected: per case a template or plain prefix."""
    header = "num.hpp"

    def __init__(self, name, extra, calls, wants, shapes, lo=0):
        self.wants, self.shapes = wants, shapes
        o = []
        for k, sh in enumerate(shapes):
            for i, t in enumerate(sh):
                a = ", ".join('{"%s", %d, 0, 0}' % (p, len(p.encode())) if isinstance(p, str) else "{nullptr, %d, %d, 255}" % (p, lo) for p in (t or ("",)))
                o.append("  static constexpr piece s%d_%d[] = {%s};" % (k, i, a))
        o.append("  const unsigned which = ev_choice(%d);\n  std::vector<ar::parsing::token_type> tokens;\n  switch (ev_choice(%d)) {" % (len(calls), len(shapes)))
        for k, sh in enumerate(shapes):
            o.append("    case %d: {%s break; }" % (k, "".join(" tokens.emplace_back(static_cast<ar::parsing::prefix_type>(ev_choice(3)), make_token(s%d_%d, %d));" % (k, i, max(len(t), 1)) for i, t in enumerate(sh))))
        o.append("  }\n  try {\n    switch (which) {")
        for k, c in enumerate(calls):
            o.append("      case %d: %s; break;" % (k, c))
        o.append('    }\n    ev_log("nothing");\n  } catch (const ar::parse_exception& e) { ev_sv("what", e.what()); }')
        super().__init__(name, "\n".join(o), None, splits=[[k, i] for k in range(len(calls)) for i in range(len(shapes))], extra=extra, min_parts=len(calls))

    def check(self, evs, env, end):
        ch = [c[0] for t, c in evs if t == "choice"]
        by = [c for t, c in evs if t == "bytes"]
        got = [(t, c) for t, c in evs if t not in ("choice", "bytes", "sym")]
        by = [[S((x,)) for x in b] for b in by]
        toks = []
        for p, t in zip(ch[2:], self.shapes[ch[1]]):
            k = list(PRE[p].encode())
            for q in t:
                k += list(q.encode()) if isinstance(q, str) else by.pop(0)
            toks.append(k)
        w = self.wants[ch[0]]
        if isinstance(w, dict):     # by the value of the code
            w = w[ch[-1]]
        want = render(w, toks)
        if len(got) != 1:
            return "not one message", str(want), str(got)
        g = got[0][1]
        if len(g) != len(want) or not all(same(env, a, b) for a, b in zip(g, want)):
            show = lambda l: "".join(chr(c) if isinstance(c, int) and c < 128 else "?" for c in l)
            return "wrong message for template %r" % w, show(want), show(g)
        return None


NAMES = ["unknown_argument", "unhandled_arguments", "argument_has_already_been_set", "failed_to_parse", "no_arguments_passed", "minimum_value_not_reached",
         "maximum_value_exceeded", "minimum_count_not_reached", "maximum_count_exceeded", "unknown_argument_with_suggestion", "mode_requires_arguments",
         "missing_required_argument", "too_few_values_for_alias", "dependent_argument_missing", "one_of_selected_type_mismatch", "missing_value_separator"]
DEFAULT = ["Unknown argument", "Unhandled arguments", "Argument has already been set", "Failed to parse", "No arguments passed", "Minimum value not reached",
           "Maximum value exceeded", "Minimum count not reached", "Maximum count exceeded", "Unknown argument: {}. Did you mean { }?", "Mode requires arguments",
           "Missing required argument", "Too few values for alias", "Dependent argument missing (needs to be before the requiring token on the command line)",
           "Only one argument from a \"One Of\" can be used at once", "Expected a value separator"]
FMT = ["plain", "", "{}", "a{}b", "{, }", "x {/} y", "{}{}", "{}, {} and { + }!", "{}.{}", "ä{}ö{…}ß", "Unknown argument: {}. Did you mean { }?", "{} {}{}{}"]
SHAPES = [[], [(2,)], [("one", 1), (1,)], [(), (1,)], [("{}",), ("x", 1), ("{ }",)], [("a",), (1, "b"), (2,), ("dd",)]]


def same(env, a, b):
    if isinstance(a, S) and isinstance(b, S):
        return a == b or (env.dom[a[0]] == env.dom[b[0]] and env.dom[a[0]][0][0] == env.dom[a[0]][-1][1])
    if isinstance(a, S):
        return is_byte(env, a, b)
    return is_byte(env, b, a) if isinstance(b, S) else a == b


def cx(s):
    return '"%s"' % s.replace('"', '\\"')


def M02(deep):
    """error messages"""
    shapes = SHAPES + ([[(3,), (3,), (), ("e",), (1, "f", 1)]] if deep else [])
    yield Message("templates", "", ['ev_sv("what", ar::utility::exception_formatter<AR_STRING(%s)>::format(tokens)); return' % cx(f) for f in FMT], FMT, shapes)
    ex = "template <typename T> void tell(std::size_t c, std::vector<ar::parsing::token_type> tokens) { T::translate_exception(ar::multi_lang_exception{static_cast<ar::error_code>(c), std::move(tokens)}); }\n"
    code = lambda n: "static_cast<std::size_t>(ar::error_code::%s)" % n
    some = [[], [("one", 2)], [("a",), (1,)], [("a",), (1,), ("c",)]]
    odd = [10, 99, 106, 1000, 4294967296, 18446744073709551615]
    call = lambda t, c: "tell<%s>(%s, std::move(tokens))" % (t, c)
    dflt = "std::decay_t<decltype(arp::exception_translator<ar::default_error_code_translations>)>"
    none = "std::decay_t<decltype(arp::exception_translator<empty>)>"
    part = "std::decay_t<decltype(arp::exception_translator<partial>)>"
    alone = "std::decay_t<decltype(arp::exception_translator<partial, void>)>"
    lang = "std::decay_t<decltype(arp::exception_translator<partial, second>)>"
    ex += """struct empty {};
struct partial { using error_code_translations = std::tuple<tr<ar::error_code::failed_to_parse, AR_STRING("eins {}")>, tr<static_cast<ar::error_code>(1000), AR_STRING("zwei {, }")>,
    tr<ar::error_code::unknown_argument_with_suggestion, AR_STRING("drei {/}")>, tr<static_cast<ar::error_code>(18446744073709551615ull), AR_STRING("vier")>>; };
struct second { using error_code_translations = std::tuple<tr<ar::error_code::unknown_argument, AR_STRING("five {}")>, tr<static_cast<ar::error_code>(1000), AR_STRING("six")>, tr<ar::error_code::failed_to_parse, AR_STRING("seven")>>; };
"""
    un = lambda c: "Untranslated error code (%d)" % c
    calls, wants = [], []
    for n, d in zip(NAMES, DEFAULT):
        calls.append(call(dflt, code(n)))
        wants.append(d)
    yield Message("english", ex, calls, wants, some, 1)
    calls, wants = [], []
    for n, d in zip(NAMES, DEFAULT):
        if n in ("unknown_argument", "failed_to_parse", "missing_value_separator", "unknown_argument_with_suggestion") or deep:
            calls += [call(none, code(n)), call(part, code(n))]
            wants += [d, {"failed_to_parse": "eins {}", "unknown_argument_with_suggestion": "drei {/}"}.get(n, d)]
    calls += [call(part, "1000"), call(alone, code("failed_to_parse")), call(lang, code("unknown_argument")), call(lang, "1000"), call(lang, code("failed_to_parse")), call(part, "18446744073709551615ull")]
    wants += ["zwei {, }", "eins {}", "five {}", "zwei {, }", "eins {}", "vier"]
    yield Message("fallback", ex, calls, wants, some, 1)
    calls = [call(t, "%dull" % c) for t in (dflt, none) for c in odd] + [call(alone, "1"), call(alone, "0"), call(lang, "105")]
    wants = [un(c) for _ in (0, 1) for c in odd] + [un(1), un(0), un(105)]
    yield Message("untranslated", ex, calls, wants, some[:3], 1)


ALL = {"M02": M02}
