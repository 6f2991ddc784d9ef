// Generators of formats and operands.
#pragma once
#include "ops.hpp"

inline u64 cfg_id(const IPosit& c) { return mix64((u64)c.f.N * 4096 + c.f.es * 32 + c.f.spec) + c.holder * 131 + c.ftb; }
inline IPosit& gen_cfg(Src& s) { return *g_cfgs[s.draw(g_cfgs.size())]; }
// a fraction of `bits` bits, right aligned
inline u64 gen_bits(Src& s, int bits) {
  if (bits <= 0) { s.draw(8); return 0; }
  u64 mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
  switch (s.draw(8)) {
    case 0: return 0;
    case 1: return mask;
    case 2: return 1;
    case 3: return 1ull << (bits - 1);
    case 4: return mask - s.draw(4);
    case 5: { u64 x = 1ull << s.draw(bits); if (s.draw(2)) x |= 1ull << s.draw(bits); return x & mask; }
    case 6: { int run = (int)s.draw(bits + 1); return (run >= 64 ? ~0ull : ((1ull << run) - 1)) << s.draw(bits) & mask; }
    default: return s.draw(0) & mask;
  }
}
inline i64 landmark(const Fmt& f, int i) {
  switch (i) {
    case 0: return 0;
    case 1: return 1ll << (f.N - 2);                       // one
    case 2: return f.maxpos();
    case 3: return 1;
    case 4: return (1ll << (f.N - 2)) | (f.N - 3 - f.es >= 0 ? 1ll << (f.N - 3 - f.es) : 0);   // two
    case 5: return 1ll << (f.N - 3);
    case 6: return f.pinf(false);
    default: return f.top();
  }
}
// any pattern of the format. Choices: mode, then what the mode needs; mode 0 takes the raw pattern.
inline i64 gen_pat(Src& s, const Fmt& f) {
  u64 mode = s.draw(10);
  if (mode <= 2) return f.sext(s.draw(0) & f.mask());
  if (mode == 3) { i64 b = landmark(f, (int)s.draw(8)); u64 d = s.range(-4, 4); return f.sext(((s.draw(2) ? 0 - (u64)b : (u64)b) + d) & f.mask()); }
  if (mode == 9) { i64 n = s.range(-40, 40); return ref_encode(f, dy_scale(dy_from_int(n), s.range(-3, 3))); }
  // structured: regime, exponent bits, fraction pattern
  Dy d; d.k = FIN; d.neg = s.draw(2);
  int k = mode <= 5 ? (int)s.range(-(f.N - 1), f.N - 1) : (int)s.range(-3, 3);
  u64 ex = gen_bits(s, f.es);
  d.e = (i64)k * (1ll << f.es) + (i64)ex;
  int run = k >= 0 ? k + 2 : 1 - k, fs = f.N - 1 - run - f.es;
  u64 fr = mode == 8 ? 0 : gen_bits(s, fs < 1 ? 1 : fs);
  d.m = (1ull << 63) | (fs < 1 ? fr << 62 : fr << (63 - fs));
  return ref_encode(f, d);
}
inline i64 gen_fin(Src& s, const Fmt& f) {   // finite non-zero
  i64 v = gen_pat(s, f);
  return ref_kind(f, v) == FIN ? v : v == 0 ? 1 : f.maxpos();
}
// second operand related to the first. ftb: fraction type width (alignment shifts near it are interesting)
inline i64 gen_rel(Src& s, const Fmt& f, i64 a, int ftb) {
  switch (s.draw(10)) {
    case 5: return f.sext(((u64)a + (u64)s.range(-2, 2)) & f.mask());
    case 6: return f.sext((0 - (u64)a + (u64)s.range(-2, 2)) & f.mask());
    case 7: { // chosen distance of exponents
      if (ref_kind(f, a) != FIN) return gen_pat(s, f);
      Dy d = ref_decode(f, a); i64 dist;
      switch (s.draw(4)) { case 0: dist = s.range(0, 3); break; case 1: dist = s.range(0, f.N); break; case 2: dist = ftb + s.range(-4, 4); break; default: dist = (1 + s.range(0, 3)) * ftb + s.range(-3, 3); }
      d.e += s.draw(2) ? dist : -dist; d.neg = s.draw(2); d.sticky = false;
      d.m = (1ull << 63) | gen_bits(s, f.N) << (63 - (f.N > 63 ? 63 : f.N)); return ref_encode(f, d); }
    case 8: { // b such that a relates to b by an exact product
      if (ref_kind(f, a) != FIN) return gen_pat(s, f);
      i64 q = gen_fin(s, f); Dy x = dy_mul(ref_decode(f, a), ref_decode(f, q)); x.sticky = false; i64 b = ref_encode(f, x); return f.sext(((u64)b + (u64)s.range(-1, 1)) & f.mask()); }
    case 9: { // same fraction, other exponent
      if (ref_kind(f, a) != FIN) return gen_pat(s, f);
      Dy x = ref_decode(f, a); x.e = s.range(-2 * f.N, 2 * f.N); x.neg = s.draw(2); return ref_encode(f, x); }
    default: return gen_pat(s, f);
  }
}
// ---- exhaustive enumerations over the small formats: choice lists [cfg, 0, raw] and [cfg, 0, raw, 0, 0, raw]
inline std::vector<Exh> exh_unary(int maxN) {
  std::vector<Exh> r;
  for (size_t i = 0; i < g_cfgs.size(); i++) if (g_cfgs[i]->f.N <= maxN)
    r.push_back(Exh{1ull << g_cfgs[i]->f.N, [i](u64 x, std::vector<u64>& o) { o = {i, 0, x}; }});
  return r;
}
inline std::vector<Exh> exh_pairs(int maxN) {   // gen_pat then gen_rel(mode 0 -> gen_pat(mode 0))
  std::vector<Exh> r;
  for (size_t i = 0; i < g_cfgs.size(); i++) { int N = g_cfgs[i]->f.N; if (N <= maxN)
    r.push_back(Exh{1ull << (2 * N), [i, N](u64 x, std::vector<u64>& o) { o = {i, 0, x >> N, 0, 0, x & ((1ull << N) - 1)}; }}); }
  return r;
}
inline void check_canon(const IPosit& c, i64 v, const char* what) {
  if (!c.f.canonical(v)) fail("%s: %s gives holder value %lld, which is not a sign-extended %d-bit pattern", c.name.c_str(), what, (long long)v, c.f.N);
}
inline std::string pv(const IPosit& c, i64 v) { return strf("%lld=", (long long)v) + dy_str(ref_decode(c.f, v)); }
#define PV(C, V) pv(C, V).c_str()
// exact comparison of a result with the expected pattern
inline void expect(const IPosit& c, const char* what, i64 got, i64 want) {
  if (got != want) fail("%s: %s gives %lld, expected %s", c.name.c_str(), what, (long long)got, PV(c, want));
}

// ---- native operands
inline uint32_t gen_fbits(Src& s, const Fmt& f) {   // float bit pattern, near-posit values included
  switch (s.draw(8)) {
    case 0: case 1: return (uint32_t)s.draw(0);
    case 2: return (uint32_t)(s.draw(2) << 31 | s.range(0, 255) << 23 | gen_bits(s, 23));
    case 3: { static const uint32_t sp[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x7f800001u, 0x7f7fffffu, 0x00800000u, 1, 0x007fffffu, 0x3f800000u, 0xffffffffu}; return sp[s.draw(12)] + (uint32_t)(s.draw(3) == 2 ? 1 : 0); }
    case 4: { uint32_t b = (uint32_t)gen_bits(s, 23); return b | (uint32_t)s.draw(2) << 31; }                       // subnormal
    default: { i64 p = gen_pat(s, f); u64 b = fl_encode(F_SINGLE, ref_decode(f, p)); return (uint32_t)(b + (u64)s.range(-2, 2)); }
  }
}
inline u64 gen_dbits(Src& s, const Fmt& f) {
  switch (s.draw(8)) {
    case 0: case 1: return s.draw(0);
    case 2: return s.draw(2) << 63 | (u64)s.range(0, 2047) << 52 | gen_bits(s, 52);
    case 3: { static const u64 sp[] = {0, 1ull << 63, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x7ff0000000000001ull, 0x7fefffffffffffffull, 0x0010000000000000ull, 1, 0x000fffffffffffffull, 0x3ff0000000000000ull, ~0ull}; return sp[s.draw(12)] + (s.draw(3) == 2 ? 1 : 0); }
    case 4: return gen_bits(s, 52) | s.draw(2) << 63;
    default: { i64 p = gen_pat(s, f); u64 b = fl_encode(F_DOUBLE, ref_decode(f, p)); return b + (u64)s.range(-2, 2); }
  }
}
inline int gen_int(Src& s) {
  switch (s.draw(6)) {
    case 0: return (int)(uint32_t)s.draw(0);
    case 1: return (int)s.range(-300, 300);
    case 2: return (int)((s.draw(2) ? 1u : ~0u) * ((1u << s.draw(32)) + (uint32_t)s.range(-2, 2)));
    case 3: { static const int sp[] = {0, 1, -1, INT32_MAX, INT32_MIN, INT32_MIN + 1, INT32_MAX - 1}; return sp[s.draw(7)]; }
    default: return (int)((s.draw(2) ? 1u : ~0u) * ((uint32_t)gen_bits(s, 1 + (int)s.draw(31))));
  }
}
struct CheckMain { const char* prop; const char* rule; void (*build)(Check&); };
void register_cfgs();
#define CHECK_MAIN(PROP, RULE) \
  static void build(Check&); \
  int main(int argc, char** argv) { \
    register_cfgs(); \
    for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "thorough") g_thorough = true; \
    Check c; c.property = PROP; c.rule = RULE; build(c); return engine_main(argc, argv, c); } \
  static void build(Check& c)
