"""The programs whose call graphs are analysed: between them, every kind of node and policy."""

HEAD = r"""
#ifdef OWN_ALLOCATOR
#include <cstddef>
extern "C" void* pool_take(std::size_t);
extern "C" void pool_give(void*) noexcept;
template <typename T> struct pool {
  using value_type = T;
  pool() = default;
  template <typename U> pool(const pool<U>&) noexcept {}
  T* allocate(std::size_t n) { return static_cast<T*>(pool_take(n * sizeof(T))); }
  void deallocate(T* p, std::size_t) noexcept { pool_give(p); }
  template <typename U> bool operator==(const pool<U>&) const { return true; }
  template <typename U> bool operator!=(const pool<U>&) const { return false; }
};
#define AR_ALLOCATOR pool
#endif
#include "arg_router/arg_router.hpp"
#include <array>
#include <string_view>
#include <variant>
namespace ar = arg_router;
namespace arp = ar::policy;
namespace ard = ar::dependency;
using namespace ar::literals;
using sv = std::string_view;
template <typename T> using vec = ar::vector<T>;
struct num { long v; };
constexpr bool operator<(num a, num b) { return a.v < b.v; }
template <> struct ar::parser<num> { static num parse(sv s) { return {long(s.size())}; } };
extern "C" void user_callback(const void*);
extern "C" void user_error(const char*);
template <typename... T> void got(const T&... v) { (user_callback(&v), ...); }
"""

PARSE = r"""
extern "C" void do_parse(const %(root)s& r, int argc, char** argv) { try { r.parse(argc, argv); } catch (const ar::parse_exception& e) { user_error(e.what()); } }
extern "C" void do_parse_words(const %(root)s& r, const vec<sv>& a) { try { r.parse(a); } catch (const ar::parse_exception& e) { user_error(e.what()); } }
extern "C" void do_make(bool on) { auto r = make(on); got(r); }
"""
HELP = r"""
extern "C" void do_help(const %(root)s& r, std::ostream& o) { r.help(o); }
extern "C" void do_help_text(const %(root)s& r) { got(r.help()); }
"""

# name: (tree, has help)
TREES = {
    "leaves": ("""ar::root(arp::validation::default_validator,
    ar::mode(ar::flag("alpha"_S, "a"_S, "Alpha"_S), ar::arg<sv>("bravo"_S, "b"_S, arp::required, arp::value_separator_t{"="_S}), ar::counting_flag<int>("very"_S, "v"_S, arp::max_value<3>()),
      ar::multi_arg<vec<sv>>("sierra"_S, arp::min_count<2>, arp::token_end_marker_t{";"_S}), ar::positional_arg<vec<sv>>("POS"_S, arp::max_count<3>),
      arp::router{[](auto... v) { got(v...); }}))""", False),
    "groups": ("""ar::root(arp::validation::default_validator,
    ar::mode(ard::one_of(ar::flag("lima"_S, "l"_S), ar::arg<num>("mike"_S), arp::default_value{false}), ard::one_of(ar::arg<sv>("echo"_S), ar::arg<num>("fox"_S), arp::required),
      ard::alias_group(ar::counting_flag<int>("very"_S, "v"_S), ar::counting_flag<int>("wide"_S), arp::default_value{0}),
      ard::alias_group(ar::arg<sv>("in"_S), ar::arg<sv>("input"_S), arp::required), arp::router{[](auto... v) { got(v...); }}))""", False),
    "links": ("""ar::root(arp::validation::default_validator,
    ar::mode(ar::flag("zulu"_S, "z"_S, arp::alias(arp::long_name_t{"alpha"_S}, arp::long_name_t{"very"_S})), ar::flag("alpha"_S, arp::dependent(arp::long_name_t{"bravo"_S})),
      ar::counting_flag<int>("very"_S, "v"_S), ar::arg<num>("bravo"_S, "b"_S, arp::default_value{num{3}}), ar::arg<sv>("delta"_S, arp::alias(arp::short_name_t{"e"_S})), ar::arg<sv>("echo"_S, "e"_S),
      arp::router{[](auto... v) { got(v...); }}))""", False),
    "modes": ("""ar::root(arp::validation::default_validator,
    ar::arg<sv>("version"_S, arp::router{[](auto... v) { got(v...); }}),
    ar::mode("mm"_S, ar::flag("alpha"_S), ar::mode("nn"_S, ar::arg<sv>("bravo"_S), arp::router{[](auto... v) { got(v...); }}), arp::router{[](auto... v) { got(v...); }}),
    ar::mode("oo"_S, ar::mode("pp"_S, ar::flag("kilo"_S), arp::router{[](auto... v) { got(v...); }}), ar::mode("qq"_S, ar::forwarding_arg("--"_S), arp::router{[](auto... v) { got(v...); }})),
    ar::mode(ar::positional_arg<vec<num>>("POS"_S), arp::router{[](auto... v) { got(v...); }}))""", False),
    "enabled": ("""ar::root(arp::validation::default_validator,
    ar::mode("mm"_S, arp::runtime_enable{on}, ar::flag("alpha"_S, "a"_S, arp::runtime_enable{on}), ar::arg<sv>("bravo"_S, arp::runtime_enable_required{on, sv{"x"}}),
      ar::multi_arg<vec<num>>("sierra"_S, arp::runtime_enable{on}), arp::router{[](auto... v) { got(v...); }}),
    ar::mode(ar::list{ar::flag("one"_S, "o"_S), ar::arg<sv>("two"_S)}, ar::arg<num>("lim"_S, arp::min_max_value(num{1}, num{2})), ar::arg<sv>("own"_S, arp::custom_parser<sv>{[](sv s) { return s; }}),
      arp::router{[](auto... v) { got(v...); }}))""", False),
    "help": ("""ar::root(arp::validation::default_validator, ar::help("help"_S, "h"_S, "Shows help"_S, arp::program_name_t{"prog"_S}, arp::program_version_t{"1.0"_S}, arp::program_intro_t{"Intro"_S}, arp::program_addendum_t{"More"_S}, arp::flatten_help),
    ar::mode("mm"_S, "A mode"_S, arp::runtime_enable{on}, ar::flag("alpha"_S, "a"_S, "Alpha flag"_S, arp::runtime_enable{on}), ar::counting_flag<int>("very"_S, "Very"_S), arp::router{[](auto... v) { got(v...); }}),
    ar::mode(ar::arg<sv>("bravo"_S, "A value"_S), ard::one_of(ar::flag("lima"_S, "Lima"_S), ar::arg<sv>("mike"_S), arp::default_value{false}), ar::positional_arg<vec<sv>>("POS"_S, "Rest"_S), arp::router{[](auto... v) { got(v...); }}))""", True),
    "colours": ("""ar::root(arp::validation::default_validator, ar::help("help"_S, "h"_S, arp::colour_help_formatter),
    ar::mode(ar::arg<sv>("bravo"_S, "A value"_S), arp::router{[](auto... v) { got(v...); }}))""", True),
    "routed_help": ("""ar::root(arp::validation::default_validator, ar::help("help"_S, "h"_S, arp::router{[](auto s) { got(s); }}),
    ar::mode(ar::arg<sv>("bravo"_S, "A value"_S), arp::router{[](auto... v) { got(v...); }}))""", True),
    "messages": ("""ar::root(arp::validation::default_validator, arp::exception_translator<ar::default_error_code_translations>,
    ar::mode(ar::flag("alpha"_S, "a"_S), ar::multi_arg<vec<sv>>("sierra"_S, arp::fixed_count<2>), arp::router{[](auto... v) { got(v...); }}))""", False),
    "numbers": ("""ar::root(arp::validation::default_validator,
    ar::mode(ar::arg<int>("int"_S, arp::min_max_value<1, 9>()), ar::arg<bool>("bool"_S), ar::arg<std::uint8_t>("byte"_S), ar::positional_arg<vec<std::size_t>>("POS"_S), arp::router{[](auto... v) { got(v...); }}))""", False),
}


def source(name):
    tree, helps = TREES[name]
    s = HEAD + "static auto make(bool on) { return %s; }\n" % tree
    root = {"root": "std::decay_t<decltype(make(true))>"}
    return s + PARSE % root + (HELP % root if helps else "")
