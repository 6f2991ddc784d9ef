#include "../b8.hpp"
#include "../gen.hpp"
#include "../lgen.hpp"
std::vector<IPosit*> g_cfgs; static FFmt F; typedef B8Api B;
void register_cfgs() { F = B::fmt(); }
static double val(const FFmt& f, u64 b) { Dy d = fl_decode(f, b); switch (d.k) { case NAN_: return NAN; case INF: return d.neg ? -INFINITY : INFINITY; case ZERO: return (b & f.sign()) ? -0.0 : 0.0; default: return ldexp((double)d.m, (int)d.e - 63) * (d.neg ? -1 : 1); } }
static std::string H(u64 v) { return strf("%#llx (%.9g)", (unsigned long long)v, val(F, v)); }
// g has the value of w truncated into the layout; zeros of either sign are the same, and so is the infinity of a division by zero
static bool good(double w, u64 g, bool anysign = false) {
  Dy d = dy_from_double(w); if (g >> 8) return false; if (anysign && d.k == INF) { g &= ~F.sign(); d.neg = false; }
  return d.k == NAN_ ? fl_isnan(F, g) : dy_same(fl_decode(F, g), fl_decode(F, fl_encode(F, d)));
}
static void verdict(const char* op, const std::string& args, double w, u64 g, bool anysign = false) { if (!good(w, g, anysign)) fail("binary8 E%dM%d: %s of %s gives %#llx (%.9g), expected %#llx (native %.17g)", F.eb, F.fb, op, args.c_str(), (unsigned long long)g, val(F, g), (unsigned long long)fl_encode(F, dy_from_double(w)), w); }
static float nat(int op, float x, float y) { volatile float p = x, q = y, r; switch (op) { case 0: r = p + q; break; case 1: r = p - q; break; case 2: r = p * q; break; default: r = p / q; } return r; }
static void pairs(Src& s) {
  u64 x = s.draw(256), y = s.draw(256); Dy a = fl_decode(F, x), b = fl_decode(F, y); s.covered = true; s.note(a.k == FIN && b.k == FIN, x, y); SHOW(s, "E%dM%d %s, %s", F.eb, F.fb, H(x).c_str(), H(y).c_str());
  float vx = (float)val(F, x), vy = (float)val(F, y); std::string t = H(x) + ", " + H(y); static const char* N[] = {"sum", "difference", "product", "quotient", "+=", "*="};
  for (int op = 0; op < 6; op++) { double w = nat(op == 4 ? 0 : op == 5 ? 2 : op, vx, vy); u64 g = B::bin(op, x, y); verdict(N[op], t, w, g, op == 3 && b.k == ZERO); Dy e = fl_decode(F, g); if (e.k == FIN && !dy_same(e, dy_from_double(w))) s.cls(0); if (e.k == FIN && ((g >> F.fb) & F.emask()) == 0) s.cls(1); if ((g & ~F.sign()) == F.maxfin()) s.cls(2); }
  int w = (vx == vy) | (vx != vy) << 1 | (vx < vy) << 2 | (vx <= vy) << 3 | (vx > vy) << 4 | (vx >= vy) << 5, g = B::cmp(x, y); if (w != g) fail("binary8 E%dM%d: comparisons of %s are %#x, expected %#x", F.eb, F.fb, t.c_str(), g, w);
  if (a.k != NAN_ && b.k != NAN_) { verdict("min", t, vx < vy ? vx : vy, B::bin(6, x, y)); verdict("max", t, vx > vy ? vx : vy, B::bin(7, x, y)); }
}
static void unary(Src& s) {
  u64 x = s.draw(256); Dy d = fl_decode(F, x); double v = val(F, x); float vf = (float)v; std::string t = H(x); s.covered = true; s.note(d.k == FIN, x); SHOW(s, "E%dM%d %s", F.eb, F.fb, t.c_str());
  for (int k = 0; k < 12; k += 6) {
    verdict("reciprocal", t, nat(3, 1, vf), B::un(k, x), d.k == ZERO); verdict("half", t, nat(2, vf, 0.5f), B::un(k + 1, x)); verdict("twice", t, nat(2, vf, 2), B::un(k + 2, x)); verdict("square", t, nat(2, vf, vf), B::un(k + 4, x));
    u64 g = B::un(k + 3, x); if (!good(exp2f(vf), g) && !good(exp2(v), g)) verdict("exp2", t, (double)exp2l((long double)v), g);
    if (B::un(k + 5, x) != (x ^ F.sign())) fail("binary8 E%dM%d: negation of %s gives %#llx", F.eb, F.fb, t.c_str(), (unsigned long long)B::un(k + 5, x));
  }
  if (B::un(12, x) != (x & ~F.sign())) fail("binary8 E%dM%d: absolute value of %s gives %#llx", F.eb, F.fb, t.c_str(), (unsigned long long)B::un(12, x));
  for (int k = 0; k < 2; k++) if (d.k != ZERO && B::negative(x, k) != (int)(x >> 7)) fail("binary8 E%dM%d: sign test of %s", F.eb, F.fb, t.c_str());
  float tf = B::to_f(x); double td = B::to_d(x);
  if (d.k == NAN_) { if (tf == tf || td == td) fail("binary8 E%dM%d: NaN %s converts to a number", F.eb, F.fb, t.c_str()); }
  else { if (tf != vf || td != v) fail("binary8 E%dM%d: %s converts to %.9g, %.17g", F.eb, F.fb, t.c_str(), tf, td); if (d.k != INF && fabs(v) < 2e9 && B::to_i(x) != (int)v) fail("binary8 E%dM%d: %s to int gives %d", F.eb, F.fb, t.c_str(), B::to_i(x)); }
  verdict("construction from its float", t, v, B::from_f(vf)); verdict("construction from its double", t, v, B::from_d(v));
}
static void from(Src& s) {
  Fmt p{32, 2, WITHNAN}; u64 k = s.draw(5), near = s.draw(256);
  if (k == 0) { uint32_t b = gen_fbits(s, p); s.note(fl_decode(F_SINGLE, b).k == FIN, b, 1); SHOW(s, "E%dM%d of float %.9g", F.eb, F.fb, bits_f(b)); verdict("construction", strf("float bits %#x", b), val(F_SINGLE, b), B::from_f(bits_f(b))); }
  else if (k == 1) { u64 b = gen_dbits(s, p); s.note(fl_decode(F_DOUBLE, b).k == FIN, b, 2); SHOW(s, "E%dM%d of double %.17g", F.eb, F.fb, bits_d(b)); verdict("construction", strf("double bits %#llx", (unsigned long long)b), val(F_DOUBLE, b), B::from_d(bits_d(b))); }
  else if (k == 2) { int i = gen_int(s); s.note(i != 0, i, 3); SHOW(s, "E%dM%d of int %d", F.eb, F.fb, i); verdict("construction", strf("int %d", i), (double)i, B::from_i(i)); }
  else { i64 o = s.range(-3, 3); u64 b = d_bits(val(F, near)) + (u64)o; s.note(fl_decode(F_DOUBLE, b).k == FIN, b, 2); SHOW(s, "E%dM%d of double %.17g", F.eb, F.fb, bits_d(b)); verdict("construction", strf("double bits %#llx", (unsigned long long)b), val(F_DOUBLE, b), B::from_d(bits_d(b)));
    uint32_t fb = f_bits((float)val(F, near)) + (uint32_t)o; verdict("construction", strf("float bits %#x", fb), val(F_SINGLE, fb), B::from_f(bits_f(fb))); }
}
static void consts(Src& s) {
  int i = (int)s.draw(9); u64 g = B::cst(i), one = (u64)F.bias() << F.fb; s.covered = true; s.note(true, i); SHOW(s, "E%dM%d constant %d", F.eb, F.fb, i);
  u64 w[] = {F.maxfin(), 1ull << F.fb, one, one + 1, 0, 0, F.maxfin(), 1ull << F.fb, fl_encode(F, dy_make(false, 1, -F.fb))};
  if (g != w[i]) fail("binary8 E%dM%d: constant %d is %#llx, expected %#llx", F.eb, F.fb, i, (unsigned long long)g, (unsigned long long)w[i]);
}
CHECK_MAIN("P23", "all operands are finite and non-zero") {
  c.bodies.push_back(Body{"pairs", pairs, 0, 0, {Exh{65536, [](u64 x, std::vector<u64>& o) { o = {x >> 8, x & 255}; }}}, {"truncated", "subnormal result", "largest finite result"}});
  c.bodies.push_back(Body{"unary", unary, 0, 0, {Exh{256, [](u64 x, std::vector<u64>& o) { o = {x}; }}}, {}});
  c.bodies.push_back(Body{"from-native", from, 4000, 40000, {}, {}});
  c.bodies.push_back(Body{"constants", consts, 0, 0, {Exh{9, [](u64 x, std::vector<u64>& o) { o = {x}; }}}, {}});
}
