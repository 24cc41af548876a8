// Numbers and text: the program's global locale is the classic one.
#pragma once
#include "io.hpp"
extern "C" {
alignas(8) inline char classic_locale[8];
const char* stub_classic() STUB("_ZNSt6locale7classicEv");
bool stub_locale_eq(const char*, const char*) STUB("_ZNKSt6localeeqERKS_");
const char* stub_classic() { return classic_locale; }
bool stub_locale_eq(const char*, const char*) { return true; }
}
