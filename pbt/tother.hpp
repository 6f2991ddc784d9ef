#pragma once
#include "names.hpp"
#include <ostream>
#include <vector>
#include <cstdint>
// types other than Posit with a stream insertion. kind 0: unpacked number of w fraction bits (args: type 0 finite 1 inf 2 nan 3 zero,
// negative, exponent, fraction), 1: tabulated number "name(pattern)" of w bits (args: pattern), 2: half precision (args: pattern)
struct TOther { const char* name; int kind, w, eb; void (*put)(std::ostream&, const long long*); float (*val)(long long); };
extern std::vector<TOther> g_others;
void register_others();
