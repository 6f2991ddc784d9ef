#include "../simd.hpp"
#include "../gen.hpp"
std::vector<IPosit*> g_cfgs; void register_cfgs() {}
static const char* N[] = {"sum", "difference", "product", "quotient", "negation", "inv", "square", "exp2", "half", "twice", "neg()", "inv()", "square()", "exp2()", "half()", "twice()", "copy", "negative test", "NaN test", "infinity test", "test of a negative exponent", "gauss2", "expression"};
static std::string lanes(const uint8_t* a) { std::string t; for (int i = 0; i < 32; i++) t += strf("%s%02x", i ? " " : "", a[i]); return t; }
static void all(const uint8_t* a, const uint8_t* b, const uint8_t* c) {
  uint8_t o[32];
  for (int op = 0; op < S_NOPS; op++) { memset(o, 0x5a, 32); simd_op(op, a, b, c, o); for (int i = 0; i < 32; i++) { uint8_t w = scal_op(op, a[i], b[i], c[i]); if (o[i] != w) fail("%s in lane %d of %#x, %#x, %#x gives %#x, the scalar gives %#x", N[op], i, a[i], b[i], c[i], o[i], w); } }
  float f[32]; simd_float(a, f); for (int i = 0; i < 32; i++) { float w = scal_float(a[i]); if (f_bits(f[i]) != f_bits(w)) fail("float of lane %d (%#x) is %.9g, the scalar gives %.9g", i, a[i], f[i], w); }
}
static void vecs(Src& s) {
  uint8_t a[32], b[32], c[32]; bool nt = false; u64 h1 = 0, h2 = 0;
  for (int i = 0; i < 32; i++) { u64 x = s.draw(1 << 24); a[i] = x; b[i] = x >> 8; c[i] = x >> 16; h1 = h1 * 31 + x; h2 = h2 * 1000003 + x; nt |= i && a[i] != a[0]; } s.note(nt, h1, h2); SHOW(s, "a = %s; b = %s; c = %s", lanes(a).c_str(), lanes(b).c_str(), lanes(c).c_str()); all(a, b, c);
}
// every pair of patterns, the place in the vector depending on the rotation
static void grid(Src& s) {
  u64 k = s.draw(2048), rot = s.draw(32); uint8_t a[32], b[32], c[32]; for (u64 i = 0; i < 32; i++) { u64 p = k * 32 + ((i + rot) & 31); a[i] = p >> 8; b[i] = p; c[i] = (uint8_t)(p * 41 + k); } s.covered = true; s.note(true, k, rot); SHOW(s, "pairs %llu..%llu", (unsigned long long)k * 32, (unsigned long long)k * 32 + 31); all(a, b, c);
}
static void bcast(Src& s) {
  uint8_t o[32]; Fmt f{8, (int)s.draw(3), WITHNAN};
  if (s.draw(2)) { uint32_t b = gen_fbits(s, f); float x = bits_f(b); s.note(x == x && x != 0, b, 1); SHOW(s, "broadcast of float %.9g", x); simd_bcast_f(x, o); uint8_t w = scal_f(x); for (int i = 0; i < 32; i++) if (o[i] != w) fail("broadcast of float %.9g: lane %d is %#x, the scalar is %#x", x, i, o[i], w); }
  else { int x = gen_int(s); s.note(x != 0, x, 2); SHOW(s, "broadcast of int %d", x); simd_bcast_i(x, o); uint8_t w = scal_i(x); for (int i = 0; i < 32; i++) if (o[i] != w) fail("broadcast of int %d: lane %d is %#x, the scalar is %#x", x, i, o[i], w); }
}
static std::vector<std::string> words(const std::string& g) {
  size_t p = g.find('('); std::vector<std::string> w; std::string t; for (size_t i = p == std::string::npos ? 0 : p + 1; i < g.size(); i++) if (g[i] == ' ' || g[i] == ')') { if (!t.empty()) w.push_back(t); t.clear(); } else t += g[i];
  if (!t.empty()) w.push_back(t); return w;
}
// the result of a test prints one hexadecimal number per lane whatever the base of the stream, which stays
static void print_tests(Src& s) {
  uint8_t a[32]; u64 h = 0; for (int i = 0; i < 32; i++) { a[i] = s.draw(256); h = h * 1000003 + a[i]; } int which = (int)s.draw(6), base = (int)s.draw(3), after; s.note(base != 0, h, which * 3 + base);
  static const char* W[] = {"the negative test", "the test of a negative exponent", "the NaN test", "the infinity test", "the patterns", "the vector"}; static const char* BN[] = {"decimal", "hexadecimal", "octal", "no"}; static const int OP[] = {S_ISNEG, S_ISNEGEXP, S_ISNAN, S_ISINF};
  SHOW(s, "printing %s of %s in %s base", W[which], lanes(a).c_str(), BN[base]); std::string g = simd_print_test(a, which, base, &after);
  if (after != base) fail("printing %s leaves the stream in %s base, it was in %s base", W[which], BN[after], BN[base]);
  if (which == 5) return;
  std::vector<std::string> w = words(g); if (w.size() != 32) fail("printing %s of %s gives %zu numbers: %s", W[which], lanes(a).c_str(), w.size(), g.c_str());
  for (int i = 0; i < 32; i++) { unsigned e = which == 4 ? a[i] : scal_op(OP[which], a[i], a[i], a[i]); if (strtoul(w[i].c_str(), nullptr, 16) != e) fail("%s of lane %d (%#x) prints as %s, expected %x", W[which], i, a[i], w[i].c_str(), e); }
}
static void print(Src& s) {
  uint8_t a[32]; u64 h = 0; for (int i = 0; i < 32; i++) { a[i] = s.draw(256); h = h * 1000003 + a[i]; } s.note(true, h); SHOW(s, "printing %s", lanes(a).c_str()); std::string g = simd_print(a);
  // one number per lane, each the lane's float as printed by default
  std::vector<std::string> w = words(g);
  if (w.size() != 32) fail("%s prints %zu numbers: %s", lanes(a).c_str(), w.size(), g.c_str());
  for (int i = 0; i < 32; i++) { char e[40]; float f = scal_float(a[i]); snprintf(e, sizeof e, "%g", f); if (f == f && w[i] != e) fail("lane %d (%#x) prints as %s, expected %s", i, a[i], w[i].c_str(), e); }
}
CHECK_MAIN("P24", "the lanes differ (for broadcasts: the number is finite and not zero)") {
  c.bodies.push_back(Body{"all-pairs", grid, 0, 0, {Exh{2048, [](u64 x, std::vector<u64>& o) { o = {x, x * 7 % 32}; }}}, {}});
  c.bodies.push_back(Body{"vectors", vecs, 700, 8000, {}, {}});
  c.bodies.push_back(Body{"broadcast", bcast, 1000, 8000, {}, {}});
  c.bodies.push_back(Body{"printing", print, 200, 2000, {}, {}});
  c.bodies.push_back(Body{"printing-tests", print_tests, 200, 2000, {}, {}});
}
