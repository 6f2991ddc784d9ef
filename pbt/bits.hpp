#pragma once
#include "names.hpp"
#include <cstdint>
#include <string>
#include <vector>
typedef uint64_t u64_; typedef int64_t i64_;
// the bit-field helpers on one word size; bits of template forms in tables; the hardware forms (hw) only where the build has them
struct FieldT { int o, s; u64_ (*get)(u64_); u64_ (*get2)(u64_); u64_ (*part)(u64_, u64_); u64_ (*hw)(u64_); };
struct TopT { int n; u64_ (*top)(u64_); std::string (*msb)(u64_); std::string (*lsb)(u64_); };
struct CastT { int wa, a, wb, b; u64_ (*msb)(u64_); u64_ (*r2l)(u64_); };
struct Bits {
  int w; u64_ (*mask)(int); u64_ (*get)(u64_, int, int); u64_ (*getm)(u64_, int, int); u64_ (*hw)(u64_, int, int); u64_ (*part)(u64_, u64_, int, int); int (*clz)(u64_); std::string (*all)(u64_);
  i64_ (*pcabs)(i64_); i64_ (*pabs)(i64_); void (*mul)(u64_, u64_, u64_*, u64_*); u64_ (*div)(u64_, u64_, u64_);
  int szu, szs, nx, nxs, pr, prs;   // sizes: next unsigned/signed, printable unsigned/signed
  std::vector<FieldT> fields; std::vector<TopT> tops;
};
extern std::vector<Bits> g_bits; extern std::vector<CastT> g_casts; extern std::vector<int> g_least, g_leastu;   // int_least_bits<1..128> sizes, signed ones negative
void register_bits();
