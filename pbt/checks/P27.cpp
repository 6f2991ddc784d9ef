#include "../engine.hpp"
#include "../f2b.hpp"
// the IEEE pattern; any zero is 0 and any NaN the quiet NaN
static uint32_t want(uint32_t b) { return (b & 0x7fffffffu) == 0 ? 0 : (b & 0x7fffffffu) > 0x7f800000u ? 0x7fc00000u : b; }
static void one(uint32_t b) { uint32_t g = f2b(bits_f(b)); if (g != want(b)) fail("float2bits of the float with pattern 0x%08x (%.9g) gives 0x%08x, expected 0x%08x", b, bits_f(b), g, want(b)); }
enum { BLK = 4096 };
static void block(Src& s) {
  uint32_t first = (uint32_t)s.draw(1u << 20) * BLK; s.covered = true; uint32_t e = first >> 23 & 255;
  s.note(true, first); SHOW(s, "4096 floats from pattern 0x%08x", first); s.cls(e == 0 ? 0 : e == 255 ? 1 : e < 127 ? 2 : 3); s.cls(first >> 31 ? 4 : 5);
  for (uint32_t i = 0; i < BLK; i++) one(first + i);
}
static void single(Src& s) {
  uint32_t b;
  switch (s.draw(4)) { case 0: b = (uint32_t)s.draw(1u << 23) >> s.draw(24); break; case 1: b = (uint32_t)(s.range(0, 255) << 23) + (uint32_t)s.range(-2, 2); break; case 2: b = (uint32_t)s.range(0, 255) << 23 | 1u << s.draw(23); break; default: b = (uint32_t)s.draw(1ull << 32); }
  b ^= (uint32_t)s.draw(2) << 31; s.note((b & 0x7fffffffu) != 0 && (b & 0x7fffffffu) < 0x7f800000u, b); SHOW(s, "0x%08x (%.9g)", b, bits_f(b)); one(b);
}
static void clz(Src& s) {
  u64 v = s.draw(0) >> s.draw(64); if (s.draw(3) == 0) v = 1ull << s.draw(64) | (s.draw(2) ? 1ull << s.draw(64) : 0); if (!v) v = 1;
  s.note(v > 1, v); SHOW(s, "0x%llx", (unsigned long long)v); int g = clz64(v), w = __builtin_clzll(v);
  if (g != w) fail("count_leading_zeroes(0x%llx) gives %d, expected %d", (unsigned long long)v, g, w);
}
static void consts(Src& s) {
  const F2BConst& c = f2b_consts[s.draw(f2b_nconsts)]; s.covered = true; s.note((c.in & 0x7fffffffu) != 0, c.in); SHOW(s, "constant-evaluated 0x%08x", c.in);
  if (c.out != want(c.in)) fail("constant evaluation of float2bits of the float with pattern 0x%08x (%.9g) gives 0x%08x, expected 0x%08x", c.in, bits_f(c.in), c.out, want(c.in));
}
static void build(Check& c) {
  std::vector<Exh> all{Exh{1u << 20, [](u64 x, std::vector<u64>& o) { o = {x}; }}}, cs{Exh{(u64)f2b_nconsts, [](u64 x, std::vector<u64>& o) { o = {x}; }}};
#ifndef F2B_ALL
  all.clear();
#endif
  c.bodies.push_back(Body{"all-floats", block, 0, 0, all, {"subnormal", "infinity and NaN", "below one", "one and above", "negative", "positive"}});
  c.bodies.push_back(Body{"single", single, 500, 10000, {}, {}});
  c.bodies.push_back(Body{"leading-zeroes", clz, 500, 10000, {}, {}});
  c.bodies.push_back(Body{"constant-evaluated", consts, 0, 0, cs, {}});
}
int main(int argc, char** argv) {
  for (int i = 1; i < argc; i++) if (std::string(argv[i]) == "thorough") g_thorough = true;
  Check c; c.property = "P27"; c.rule = "a block of 4096 consecutive patterns counts as one case; single: the float is finite and non-zero"; build(c); return engine_main(argc, argv, c);
}
