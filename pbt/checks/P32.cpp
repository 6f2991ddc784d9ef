#include "../gen.hpp"
#include "../bits.hpp"
#include "../text.hpp"
std::vector<IPosit*> g_cfgs; void register_cfgs() { register_bits(); }
static u64 ones(int n) { return n >= 64 ? ~0ull : (1ull << n) - 1; }
static u64 word(Src& s, int w) {   // uniform, few bits, runs, near powers of two
  switch (s.draw(5)) { case 0: return s.draw(0) & ones(w); case 1: return (s.draw(0) >> s.draw(64)) & ones(w); case 2: { u64 r = ones((int)s.draw(w + 1)) << s.draw(w); return (s.draw(2) ? r : ~r) & ones(w); }
    case 3: return ((1ull << s.draw(w)) + (u64)s.range(-2, 2)) & ones(w); default: { u64 r = 0; for (int i = 0, n = 1 + (int)s.draw(3); i < n; i++) r |= 1ull << s.draw(w); return r; } }
}
static const Bits& pick(Src& s) { return g_bits[s.draw(g_bits.size())]; }
static void eq(const char* what, const Bits& b, u64 x, const std::string& how, u64 got, u64 want) { if (got != want) fail("%d-bit word 0x%llx: %s %s is 0x%llx, expected 0x%llx", b.w, (unsigned long long)x, what, how.c_str(), (unsigned long long)got, (unsigned long long)want); }
static void field(Src& s) {
  const Bits& b = pick(s); const FieldT* t = nullptr; int o, n; if (s.draw(2)) { t = &b.fields[s.draw(b.fields.size())]; o = t->o; n = t->s; } else { o = (int)s.draw(b.w); n = (int)s.draw(b.w - o + 1); }
  u64 x = word(s, b.w), v = word(s, b.w); s.note(n > 0 && n < b.w, mix64(b.w * 4096 + o * 64 + n), x, v); SHOW(s, "%d-bit word 0x%llx, field at %d of %d bits, value 0x%llx", b.w, (unsigned long long)x, o, n, (unsigned long long)v);
  if (n == 0) s.cls(0); if (o + n == b.w) s.cls(1); if (t) s.cls(2);
  u64 m = ones(n), g = (x >> o) & m, p = (x & ~(m << o) & ones(b.w)) | ((v & m) << o); std::string how = strf("at %d of %d bits", o, n);
  if (o == 0) eq("mask", b, x, how, b.mask(n), m);
  eq("field", b, x, how, b.get(x, o, n), g); eq("field (flexible form)", b, x, how, b.getm(x, o, n), g); eq("replaced field", b, x, how, b.part(x, v, o, n), p); if (b.hw) { eq("field (hardware form)", b, x, how, b.hw(x, o, n), g); s.cls(3); }
  if (t) { eq("field (constant form)", b, x, how, t->get(x), g); eq("field (plain constant form)", b, x, how, t->get2(x), g); eq("replaced field (constant form)", b, x, how, t->part(x, v), p); if (t->hw) eq("field (constant hardware form)", b, x, how, t->hw(x), g); }
}
static void word1(Src& s) {
  const Bits& b = pick(s); u64 x = word(s, b.w); const TopT& t = b.tops[s.draw(b.tops.size())]; s.note(x != 0, b.w, x, t.n); SHOW(s, "%d-bit word 0x%llx, %d bits", b.w, (unsigned long long)x, t.n);
  if (x) { int z = 0; while (!((x >> (b.w - 1 - z)) & 1)) z++; eq("number of leading zeros", b, x, "", b.clz(x), z); }
  eq("leading bits", b, x, strf("(%d)", t.n), t.top(x), x >> (b.w - t.n)); eq("leading bits", b, x, "(all)", b.tops[b.w - 1].top(x), x);
  auto st = [&](const char* w, const std::string& g, const std::string& e) { if (g != e) fail("%d-bit word 0x%llx: %s %d reads %s, expected %s", b.w, (unsigned long long)x, w, t.n, g.c_str(), e.c_str()); };
  st("all bits", b.all(x), bits_str(x, b.w)); st("leading bits", t.msb(x), bits_str(x >> (b.w - t.n), t.n)); st("trailing bits", t.lsb(x), bits_str(x, t.n));
  i64 v = (i64)(x << (64 - b.w)) >> (64 - b.w); if (x != 1ull << (b.w - 1)) { eq("absolute value", b, x, "(conditional)", (u64)b.pcabs(v), (u64)(v < 0 ? -v : v)); eq("absolute value", b, x, "(branch-free)", (u64)b.pabs(v), (u64)(v < 0 ? -v : v)); }
}
static void casts(Src& s) {
  const CastT& c = g_casts[s.draw(g_casts.size())]; u64 x = word(s, c.wa); u64 l = x & ones(c.a); s.note(c.a != c.b, mix64(c.wa * 64 + c.a), mix64(c.wb * 64 + c.b), x); s.cls(c.a > c.b ? 0 : 1); s.cls(c.wa > c.wb ? 2 : 3);
  SHOW(s, "%d of %d bits to %d of %d bits: 0x%llx", c.a, c.wa, c.b, c.wb, (unsigned long long)x);
  u64 w = c.a > c.b ? l >> (c.a - c.b) : l << (c.b - c.a), g = c.r2l(x), h = c.msb(l);
  if (g != w) fail("aligning the low %d bits of the %d-bit word 0x%llx to %d bits (%d-bit word) gives 0x%llx, expected 0x%llx", c.a, c.wa, (unsigned long long)x, c.b, c.wb, (unsigned long long)g, (unsigned long long)w);
  if (h != w) fail("casting the %d-bit value 0x%llx to %d bits aligned at the top (words of %d and %d bits) gives 0x%llx, expected 0x%llx", c.a, (unsigned long long)l, c.b, c.wa, c.wb, (unsigned long long)h, (unsigned long long)w);
}
static void wide(Src& s) {
  const Bits& b = pick(s); u64 x = word(s, b.w), y = word(s, b.w), q = word(s, b.w); s.note(x > 1 && y > 1, b.w, x, y); SHOW(s, "%d-bit words 0x%llx and 0x%llx", b.w, (unsigned long long)x, (unsigned long long)y); u64 hi, lo; b.mul(x, y, &hi, &lo); u128 p = (u128)x * y;
  if (b.w < 64) { hi = 0; lo &= ones(2 * b.w); }
  if (hi != (u64)(p >> 64) || lo != (u64)p) fail("wide product of the %d-bit words 0x%llx and 0x%llx is 0x%llx:%llx", b.w, (unsigned long long)x, (unsigned long long)y, (unsigned long long)hi, (unsigned long long)lo);
  if (y) { u128 d = (u128)q * y + x % y; u64 r = b.div((u64)(d >> 64), (u64)d, y); if (r != q) fail("(0x%llx * 0x%llx + 0x%llx) / 0x%llx in %d-bit words is 0x%llx", (unsigned long long)q, (unsigned long long)y, (unsigned long long)(x % y), (unsigned long long)y, b.w, (unsigned long long)r); }
  if (b.szu != (b.w == 64 ? 128 : 2 * b.w) || (b.nxs && b.nxs != 2 * b.w)) fail("the next integer of the %d-bit word has %d (unsigned) and %d (signed) bits", b.w, b.szu, b.nxs);
  int pr = b.w == 8 ? 16 : b.w; if (b.pr != pr || b.prs != pr) fail("the printable integer of the %d-bit word has %d and %d bits", b.w, b.pr, b.prs);
  int n = 1 + (int)s.draw(128), e = n <= 8 ? 8 : n <= 16 ? 16 : n <= 32 ? 32 : n <= 64 ? 64 : 128; if (g_least[n - 1] != e || g_leastu[n - 1] != e) fail("the least integer of %d bits has %d (signed) and %d (unsigned) bits", n, g_least[n - 1], g_leastu[n - 1]);
}
CHECK_MAIN("P32", "field: not empty and not the whole word; word: not zero; cast: changes the number of bits; wide: both factors above one") {
  c.bodies.push_back(Body{"field", field, 800, 20000, {}, {"empty field", "field at the top", "constant form", "hardware form"}});
  c.bodies.push_back(Body{"word", word1, 300, 8000, {}, {}});
  c.bodies.push_back(Body{"cast", casts, 400, 10000, {}, {"narrowing", "widening", "to a narrower word", "to a word at least as wide"}});
  c.bodies.push_back(Body{"wide", wide, 400, 10000, {}, {}});
}
