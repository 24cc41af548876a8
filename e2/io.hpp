// What the analysis needs to know about the precompiled parts of iostreams and of the system.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0  // so that the streams are analysed with the library
#include "h.hpp"
#include <cstring>
#include <iostream>
#include <sstream>
#include <sys/ioctl.h>
#define STUB(sym) __asm__("stub." sym) __attribute__((used))
extern "C" {
void stub_ios_base(char* p) STUB("_ZNSt8ios_baseC2Ev");
void stub_ios_base_d(char*) STUB("_ZNSt8ios_baseD2Ev");
void stub_ios_init(char* p) STUB("_ZNSt8ios_base7_M_initEv");
void stub_locale(char*) STUB("_ZNSt6localeC1Ev");
void stub_locale_c(char*, const char*) STUB("_ZNSt6localeC1ERKS_");
void stub_locale_d(char*) STUB("_ZNSt6localeD1Ev");
void stub_cache(char*, const char*) STUB("_ZNSt9basic_iosIcSt11char_traitsIcEE15_M_cache_localeERKSt6locale");
void stub_move(char* p, char* q) STUB("_ZNSt8ios_base7_M_moveERS_");
void stub_swap(char* p, char* q) STUB("_ZNSt8ios_base7_M_swapERS_");
char stub_widen(const char*, char c) STUB("_ZNKSt9basic_iosIcSt11char_traitsIcEE5widenEc");
int stub_ioctl(int, unsigned long, void* p) STUB("ioctl");

// width at 16, precision at 8, flags at 24, as the library's inline functions see them
void stub_ios_base(char* p) { for (int i = 8; i < 216; ++i) p[i] = 0; }
void stub_ios_base_d(char*) {}
void stub_ios_init(char* p)
{
    *reinterpret_cast<long*>(p + 8) = 6;
    *reinterpret_cast<long*>(p + 16) = 0;
    *reinterpret_cast<int*>(p + 24) = 0x1002;
}
void stub_locale(char*) {}
void stub_locale_c(char*, const char*) {}
void stub_locale_d(char*) {}
void stub_cache(char*, const char*) {}
void stub_move(char* p, char* q) { for (int i = 8; i < 36; ++i) p[i] = q[i]; }
void stub_swap(char* p, char* q)
{
    for (int i = 8; i < 36; ++i) {
        const char c = p[i];
        p[i] = q[i];
        q[i] = c;
    }
}
char stub_widen(const char*, char c) { return c; }

// the terminal: no terminal at all, or any number of columns
int stub_ioctl(int, unsigned long, void* p)
{
    if (ev_choice(2) == 0) return -1;
    auto* w = static_cast<struct winsize*>(p);
    w->ws_row = 0;
    w->ws_col = static_cast<unsigned short>(ev_sym(0, 0xffff));
    return 0;
}
}

// a formatter without support for run-time data: the library then formats at compile time
template <typename F>
struct fixed {
    template <typename Node, typename HelpNode, bool Flatten>
    static void generate_help(std::ostream& s) { F::template generate_help<Node, HelpNode, Flatten>(s); }
};
template <typename F>
struct arg_router::policy::is_policy<fixed<F>> : std::true_type {};

#ifdef HELP_EXITS
// standard output is a buffer here, and leaving the program shows what was written
extern "C" {
alignas(std::ostream) char stub_cout[sizeof(std::ostream)] __asm__("_ZSt4cout");
void stub_exit(int) STUB("exit");
}
alignas(std::stringbuf) inline char out_storage[sizeof(std::stringbuf)];
inline std::stringbuf* out_buffer;
inline void open_cout()
{
    out_buffer = new (out_storage) std::stringbuf;
    new (stub_cout) std::ostream(out_buffer);
}
void stub_exit(int code)
{
    ev_sv("text", out_buffer->str());
    ev_log("exit", code);
    ev_end();
}
#endif
