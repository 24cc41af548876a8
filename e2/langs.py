"""Languages: locale names, and the tree chosen for a language."""
from bodies import Body, text
from model import S, Env, Split, is_byte


class Iso(Body):
    header = "h.hpp"

    def __init__(self, n):
        self.len = n
        code = """  const std::size_t n = ev_choice(%d);
  char* b = ev_alloc(n);
  ev_bytes(b, n, 0, 255);
  ev_ro(b);
  const auto out = ar::multi_lang::iso_locale(std::string_view{b, n});
  std::size_t k = 0;
  while (k < n && b[k] != '.') ++k;
  ev_log("size", int(out.size() == k));
  for (std::size_t i = 0; i < k && i < out.size(); ++i) ev_log("same", int(b[i] == '-' ? out[i] == '_' : out[i] == b[i]));
""" % (n + 1)
        super().__init__("locale", code, None, splits=[[i] for i in range(n + 1)], extra='#include "arg_router/multi_lang/iso_locale.hpp"', min_parts=n)

    def check(self, evs, env, end):
        for t, c in evs:
            if t in ("size", "same") and c[0] != 1:
                return "the locale name is not standardised", "encoding dropped, hyphens changed to underscores, nothing else changed", t
        return None if any(t == "size" for t, c in evs) else ("no result", "a locale name", end)


IDS = ["en_GB", "fr", "ja", "uz_Latn_UZ"]
NAMES = ["force", "forcer", "\u5f37\u5236", "majbur"]
EXTRA = """#include "arg_router/multi_lang/root.hpp"
#include "arg_router/multi_lang/iso_locale.hpp"
namespace arg_router::multi_lang {
%s
}
""" % "\n".join("""template <> class translation<AR_STRING("%s")> { public:
  using force = AR_STRING("%s"); using text = AR_STRING("text %s.");
  using error_code_translations = std::tuple<std::pair<ar::traits::integral_constant<ar::error_code::unknown_argument>, AR_STRING("%s:{|}")>, std::pair<ar::traits::integral_constant<ar::error_code::unknown_argument_with_suggestion>, AR_STRING("%s:{|}")>>; };""" % (i, n, i, i, i) for i, n in zip(IDS, NAMES))
CPP20 = ["ENABLE"]


class Lang(Body):
    """shapes: (text, unknown bytes); which tree is chosen."""
    header = "io.hpp"

    def __init__(self, name, ids, shapes, iso, helps=False):
        self.ids, self.shapes, self.iso, self.helps = ids, shapes, iso, helps
        code = ""
        for k, (pre, n) in enumerate(shapes):
            code += '  static constexpr piece s%d[] = {{"%s", %d, 0, 0}, {nullptr, %d, 0, 255}};\n' % (k, pre, len(pre.encode()), n)
        code += "  std::string_view id;\n  switch (ev_choice(%d)) {\n%s  }\n" % (len(shapes), "".join("    case %d: id = make_token(s%d, 2); break;\n" % (k, k) for k in range(len(shapes))))
        code += """  const auto r = ar::multi_lang::root<%s>(%s, [&](auto t) {
    using tr = decltype(t);
    return ar::root(arp::validation::default_validator, arp::exception_translator<tr>, ar::help("help"_S),
      ar::flag(arp::long_name_t<typename tr::force>{}, arp::description_t<typename tr::text>{}, arp::router{[](bool) { ev_sv("chosen", tr::force::get()); }}));
  });
""" % (", ".join('AR_STRING("%s")' % i for i in ids), "ar::multi_lang::iso_locale(id)" if iso else "id")
        if helps:
            code += '  std::ostringstream o;\n  if (ev_choice(2)) r.help(o); else o << r.help();\n  ev_sv("help", o.str());\n'
        else:
            code += """  static constexpr std::string_view names[] = {%s};
  std::vector<std::string_view> args{names[ev_choice(%d)]};
  try { r.parse(args); ev_log("ok"); } catch (const ar::parse_exception& e) { ev_sv("err", e.what()); }
""" % (", ".join('"--%s"' % n for n in NAMES), len(NAMES))
        super().__init__(name, code, None, splits=[[k] for k in range(len(shapes))], extra=EXTRA, min_parts=len(shapes))

    def check(self, evs, env, end):
        it = iter(evs)
        pre, n = self.shapes[next(it)[1][0]]
        given = list(pre.encode())
        ask, out = None, []
        for t, c in it:
            if t == "bytes":
                given += [S((x,)) for x in c]
            elif t == "choice":
                ask = c[0]
            elif t != "sym":
                out.append((t, text(c) if t.endswith("$") else c))
        if self.iso:
            cut = []
            for g in given:
                if is_byte(env, g, 46):
                    break
                cut.append(95 if is_byte(env, g, 45) else g)
            given = cut
        chosen = next((i for i in self.ids if len(i) == len(given) and all(is_byte(env, a, b) for a, b in zip(given, i.encode()))), self.ids[0])
        if self.helps:
            got = out[0][1] if out else ""
            flat, want = "".join(got.split()), "text" + chosen + "."       # the line may be wrapped
            others = [i for i in self.ids if "text" + i + "." in flat and i != chosen]
            return None if want in flat and not others and "--" + NAMES[IDS.index(chosen)] in got else ("help in the wrong language", want, repr(got))
        name = NAMES[ask]
        mine = NAMES[IDS.index(chosen)]
        if name == mine:
            return None if out == [("chosen$", mine), ("ok", [])] else ("the chosen language's name is not accepted", mine, str(out))
        if len(out) != 1 or out[0][0] != "err$" or not out[0][1].startswith(chosen + ":"):
            return "not rejected in the chosen language", "an error in %s" % chosen, str(out)
        return None


FIXED = [(i, 0) for i in IDS] + [("", 0), ("en", 0), ("en-GB", 0), ("en_GB.UTF-8", 0), ("fr.", 0), ("FR", 0), ("fr_FR", 0), ("uz-Latn-UZ", 0), ("uz-Latn_UZ.x", 0), ("C", 0), ("j", 1), ("", 1), ("", 2), ("en_", 2), ("fr", 1), ("e", 4), ("ja.", 2)]


def M01(deep):
    """language selection"""
    yield Iso(6 if not deep else 8)
    yield Lang("plain", IDS, FIXED, False)
    yield Lang("standardised", IDS, FIXED, True)
    yield Lang("two", ["fr", "en_GB"], FIXED, True)
    yield Lang("help", ["ja", "fr", "en_GB"], FIXED[:12], True, helps=True)


ALL = {"M01": M01}
