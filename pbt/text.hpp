// Text forms, from the reference model.
#pragma once
#include "ref.hpp"
#include <cmath>
inline std::string bits_str(u64 x, int n) { std::string t; for (int i = n - 1; i >= 0; i--) t += (char)('0' + ((x >> i) & 1)); return t; }
// what an unpacked number with a fraction of ftb bits reads like
inline std::string unpacked_text(const Dy& d, int ftb) {
  if (d.k == ZERO) return "up(0)"; if (d.k == NAN_) return "up(nan)"; if (d.k == INF) return d.neg ? "up(-infinity)" : "up(+infinity)";
  u64 fr = (d.m << 1) >> (64 - ftb); char b[96];
  snprintf(b, sizeof b, "up(%s exp (dec) = %lld fraction (hex) = %llx (bin) = ", d.neg ? "-" : "+", (long long)d.e, (unsigned long long)fr);
  return b + bits_str(fr, ftb) + ")";
}
