// Harness events, interpreted by absint.
#pragma once
#include "arg_router/arg_router.hpp"
#include <array>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <optional>
#include <string_view>
#include <variant>
#include <vector>
extern "C" {
unsigned ev_choice(unsigned n);
std::uint64_t ev_sym(std::uint64_t lo, std::uint64_t hi);
void ev_bytes(char* p, std::size_t n, std::uint64_t lo, std::uint64_t hi);
char* ev_alloc(std::size_t n);
void ev_ro(const void*);
void ev_rw(const void*);
void ev_log(const char* tag, ...);
void ev_str(const char* tag, const char* p, std::size_t n);
void ev_end();
void ev_assume(bool);
}
namespace ar = arg_router;
namespace arp = ar::policy;
namespace ard = ar::dependency;
using namespace ar::literals;
inline void ev_sv(const char* tag, std::string_view s) { ev_str(tag, s.data(), s.size()); }

// the values a router receives
inline void lg(bool v) { ev_log("bool", int(v)); }
inline void lg(std::int64_t v) { ev_log("num", v); }
inline void lg(std::size_t v) { ev_log("num", v); }
inline void lg(int v) { ev_log("num", std::size_t{static_cast<unsigned>(v)}); }
inline void lg(unsigned v) { ev_log("num", std::size_t{v}); }
inline void lg(unsigned char v) { ev_log("num", std::size_t{v}); }
inline void lg(std::string_view v) { ev_sv("text", v); }
inline void lg(const std::string& v) { ev_sv("text", v); }
template <typename T>
void lg(const std::vector<T>& v)
{
    ev_log("list", v.size());
    for (const auto& e : v) lg(e);
}
template <typename... T>
void lg(const std::variant<T...>& v)
{
    ev_log("alternative", v.index());
    std::visit([](const auto& e) { lg(e); }, v);
}

// Input tokens.  A shape is a sequence of pieces: fixed text, or unknown bytes.
struct piece { const char* text; std::size_t n; std::uint64_t lo, hi; };
inline std::string_view make_token(const piece* p, std::size_t np)
{
    std::size_t n = 0;
    for (std::size_t i = 0; i < np; ++i) n += p[i].n;
    char* b = ev_alloc(n);
    std::size_t o = 0;
    for (std::size_t i = 0; i < np; ++i) {
        if (p[i].text) for (std::size_t k = 0; k < p[i].n; ++k) b[o + k] = p[i].text[k];
        else ev_bytes(b + o, p[i].n, p[i].lo, p[i].hi);
        o += p[i].n;
    }
    ev_ro(b);
    return {b, n};
}

// one message per error code, so that code and tokens can be told apart
template <ar::error_code E, typename S>
using tr = std::pair<ar::traits::integral_constant<E>, S>;
struct codes {
    using error_code_translations = std::tuple<
        tr<ar::error_code::unknown_argument, AR_STRING("unknown_argument:{|}")>,
        tr<ar::error_code::unhandled_arguments, AR_STRING("unhandled_arguments:{|}")>,
        tr<ar::error_code::argument_has_already_been_set, AR_STRING("argument_has_already_been_set:{|}")>,
        tr<ar::error_code::failed_to_parse, AR_STRING("failed_to_parse:{|}")>,
        tr<ar::error_code::no_arguments_passed, AR_STRING("no_arguments_passed:{|}")>,
        tr<ar::error_code::minimum_value_not_reached, AR_STRING("minimum_value_not_reached:{|}")>,
        tr<ar::error_code::maximum_value_exceeded, AR_STRING("maximum_value_exceeded:{|}")>,
        tr<ar::error_code::minimum_count_not_reached, AR_STRING("minimum_count_not_reached:{|}")>,
        tr<ar::error_code::maximum_count_exceeded, AR_STRING("maximum_count_exceeded:{|}")>,
        tr<ar::error_code::unknown_argument_with_suggestion, AR_STRING("unknown_argument_with_suggestion:{|}")>,
        tr<ar::error_code::mode_requires_arguments, AR_STRING("mode_requires_arguments:{|}")>,
        tr<ar::error_code::missing_required_argument, AR_STRING("missing_required_argument:{|}")>,
        tr<ar::error_code::too_few_values_for_alias, AR_STRING("too_few_values_for_alias:{|}")>,
        tr<ar::error_code::dependent_argument_missing, AR_STRING("dependent_argument_missing:{|}")>,
        tr<ar::error_code::one_of_selected_type_mismatch, AR_STRING("one_of_selected_type_mismatch:{|}")>,
        tr<ar::error_code::missing_value_separator, AR_STRING("missing_value_separator:{|}")>>;
};
