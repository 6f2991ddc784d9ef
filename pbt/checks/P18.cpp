#include "../afl.hpp"
#include "../gen.hpp"
#include "../lgen.hpp"
void register_cfgs() { register_anys(); }
std::vector<IPosit*> g_cfgs;
static double val(const FFmt& f, u64 b) { Dy d = fl_decode(f, b); switch (d.k) { case NAN_: return NAN; case INF: return d.neg ? -INFINITY : INFINITY; case ZERO: return (b & f.sign()) ? -0.0 : 0.0; default: return ldexp((double)d.m, (int)d.e - 63) * (d.neg ? -1 : 1); } }
static void verdict(IAny& a, const char* op, const std::string& args, double w, u64 g, bool anysign = false) {   // anysign: an infinity from a division by zero (zeros carry no sign once decoded)
  Dy d = dy_from_double(w); if (anysign && d.k == INF) { g &= ~a.f.sign(); d.neg = false; } const FFmt& f = a.f; bool ok;
  if (d.k == NAN_) ok = fl_isnan(f, g); else ok = dy_same(fl_decode(f, g), fl_decode(f, fl_encode(f, d)));
  if (g >> f.bits() && f.bits() < 64) ok = false;
  if (!ok) fail("%s: %s of %s gives %#llx, expected %#llx (native %.17g)", a.name.c_str(), op, args.c_str(), (unsigned long long)g, (unsigned long long)fl_encode(f, d), w);
}
static double nat(IAny& a, int op, double x, double y) {
  if (a.dbl) { volatile double p = x, q = y, r; switch (op) { case 0: r = p + q; break; case 1: r = p - q; break; case 2: r = p * q; break; default: r = p / q; } return r; }
  volatile float p = (float)x, q = (float)y, r; switch (op) { case 0: r = p + q; break; case 1: r = p - q; break; case 2: r = p * q; break; default: r = p / q; } return r;
}
static u64 gen_lay2(Src& s, const FFmt& f, u64 a) { // related to a
  u64 m = f.bits() == 64 ? ~0ull : (1ull << f.bits()) - 1;
  switch (s.draw(6)) { case 4: return (a + (u64)s.range(-2, 2)) & m; case 5: return ((a ^ f.sign()) + (u64)s.range(-2, 2)) & m; default: return gen_lay(s, f); }
}
#define H(v) strf("%#llx (%.9g)", (unsigned long long)(v), val(a.f, v))
static void pairs(Src& s) {
  IAny& a = *g_anys[s.draw(g_anys.size())]; const FFmt& f = a.f; u64 x = gen_lay(s, f), y = gen_lay2(s, f, x); Dy dx = fl_decode(f, x), dy = fl_decode(f, y);
  s.covered = f.bits() == 8; s.note(dx.k == FIN && dy.k == FIN, f.eb * 64 + f.fb + a.dbl * 10000 + f.denorm * 20000, x, y); std::string t; SHOW(s, "%s %s, %s", a.name.c_str(), H(x).c_str(), H(y).c_str()); t = H(x) + ", " + H(y);
  double vx = val(f, x), vy = val(f, y); static const char* N[] = {"sum", "difference", "product", "quotient", "+=", "*="};
  for (int op = 0; op < 6; op++) { double w = nat(a, op == 4 ? 0 : op == 5 ? 2 : op, vx, vy); u64 g = a.bin(op, x, y); verdict(a, N[op], t, w, g, op == 3 && dy.k == ZERO); Dy e = fl_decode(f, g); if (e.k == FIN && !dy_same(e, dy_from_double(w))) s.cls(0); if (e.k == FIN && ((g >> f.fb) & f.emask()) == 0) s.cls(1); if ((g & ~f.sign()) == f.maxfin()) s.cls(2); }
  int w = (vx == vy) | (vx != vy) << 1 | (vx < vy) << 2 | (vx <= vy) << 3 | (vx > vy) << 4 | (vx >= vy) << 5, g = a.cmp(x, y); if (w != g) fail("%s: comparisons of %s are %#x, expected %#x", a.name.c_str(), t.c_str(), g, w);
  if (dx.k != NAN_ && dy.k != NAN_) { verdict(a, "min", t, vx < vy ? vx : vy, a.bin(6, x, y)); verdict(a, "max", t, vx > vy ? vx : vy, a.bin(7, x, y)); }
}
static void unary(Src& s) {
  IAny& a = *g_anys[s.draw(g_anys.size())]; const FFmt& f = a.f; u64 x = gen_lay(s, f); Dy d = fl_decode(f, x); double v = val(f, x); std::string t = H(x);
  s.covered = f.bits() <= 16; s.note(d.k == FIN, f.eb * 64 + f.fb + a.dbl * 10000 + f.denorm * 20000, x); SHOW(s, "%s %s", a.name.c_str(), t.c_str());
  { u64 g = a.un(0, x); Dy e = fl_decode(f, fl_encode(f, dy_from_double(v * 0.5))); if (!(d.k == FIN && dy_same(fl_decode(f, g), e))) verdict(a, "half", t, nat(a, 2, v, 0.5), g); }   // halved in either native precision
  verdict(a, "twice", t, nat(a, 2, v, 2), a.un(1, x)); verdict(a, "inv", t, nat(a, 3, 1, v), a.un(2, x), d.k == ZERO); verdict(a, "~", t, nat(a, 3, 1, v), a.un(3, x), d.k == ZERO);
  for (int k = 4; k < 6; k++) if (a.un(k, x) != (x ^ f.sign())) fail("%s: negation of %s gives %#llx", a.name.c_str(), t.c_str(), (unsigned long long)a.un(k, x));
  for (int k = 6; k < 8; k++) if (a.un(k, x) != (x & ~f.sign())) fail("%s: absolute value of %s gives %#llx", a.name.c_str(), t.c_str(), (unsigned long long)a.un(k, x));
  if (((a.preds(x) & 1) != 0) != ((x & f.sign()) != 0)) fail("%s: sign test of %s", a.name.c_str(), t.c_str());
  if (f.denorm && ((a.preds(x) & 2) != 0) != (d.k == ZERO)) fail("%s: zero test of %s", a.name.c_str(), t.c_str());
  if (!(a.preds(x) & 4)) fail("%s: the format has a NaN", a.name.c_str());
  float tf = a.to_f(x); double td = a.to_d(x);
  if (d.k == NAN_) { if (tf == tf || td == td) fail("%s: NaN %s converts to a number", a.name.c_str(), t.c_str()); }
  else {
    if (td != v) fail("%s: %s to double gives %.17g", a.name.c_str(), t.c_str(), td);
    Dy w = fl_decode(F_SINGLE, fl_encode(F_SINGLE, d)), g = dy_from_double(tf); if (!dy_same(w, g)) fail("%s: %s to float gives %.9g, expected %s", a.name.c_str(), t.c_str(), tf, dy_str(w).c_str());
    if (d.k != INF) { i64 w = d.k == ZERO || d.e < 0 ? 0 : d.e >= 31 ? (d.neg ? INT32_MIN : INT32_MAX) : (d.neg ? -1 : 1) * (i64)(d.m >> (63 - d.e)); if (a.to_i(x) != w) fail("%s: %s to int gives %d, expected %lld", a.name.c_str(), t.c_str(), a.to_i(x), (long long)w); }
    for (int k = 0; k < 2; k++) { Full u = a.to_u(x, k); if (u.type != d.k || (d.k == FIN && (u.neg != d.neg || u.exp != d.e || u.frac != d.m << 1))) fail("%s: %s unpacks wrongly", a.name.c_str(), t.c_str()); verdict(a, "from unpacked", t, v, a.from_u(u)); }
    verdict(a, "from its double", t, v, a.from_d(td));
  }
}
static void fmas(Src& s) {
  IAny& a = *g_anys[s.draw(g_anys.size())]; const FFmt& f = a.f; u64 x = gen_lay(s, f), y = gen_lay2(s, f, x), z = s.draw(2) ? gen_lay(s, f) : gen_lay2(s, f, fl_encode(f, dy_from_double(nat(a, 2, val(f, x), val(f, y)))));
  s.note(fl_decode(f, x).k == FIN && fl_decode(f, y).k == FIN && fl_decode(f, z).k == FIN, f.eb * 64 + f.fb + a.dbl * 10000 + f.denorm * 20000, x, y, z); std::string t = H(x) + ", " + H(y) + ", " + H(z); SHOW(s, "%s fma %s", a.name.c_str(), t.c_str());
  double w = nat(a, 0, nat(a, 2, val(f, x), val(f, y)), val(f, z)); verdict(a, "fma", t, w, a.fma3(x, y, z));
}
static void from(Src& s) {
  IAny& a = *g_anys[s.draw(g_anys.size())]; const FFmt& f = a.f; Fmt p{32, 2, WITHNAN}; u64 k = s.draw(5); u64 near = gen_lay(s, f);
  if (k == 0) { uint32_t b = gen_fbits(s, p); s.note(fl_decode(F_SINGLE, b).k == FIN, f.eb * 64 + f.fb, b, 1); SHOW(s, "%s of float %.9g", a.name.c_str(), bits_f(b)); Dy d = fl_decode(F_SINGLE, b); verdict(a, "conversion", strf("float bits %#x", b), val(F_SINGLE, b), a.from_f(bits_f(b))); (void)d; }
  else if (k == 1) { u64 b = gen_dbits(s, p); s.note(fl_decode(F_DOUBLE, b).k == FIN, f.eb * 64 + f.fb, b, 2); SHOW(s, "%s of double %.17g", a.name.c_str(), bits_d(b)); verdict(a, "conversion", strf("double bits %#llx", (unsigned long long)b), val(F_DOUBLE, b), a.from_d(bits_d(b))); }
  else if (k == 2) { int i = gen_int(s); s.note(i != 0, f.eb * 64 + f.fb, i, 3); SHOW(s, "%s of int %d", a.name.c_str(), i); verdict(a, "conversion", strf("int %d", i), (double)i, a.from_i(i)); }
  else { u64 b = d_bits(val(f, near)) + (u64)s.range(-3, 3); s.note(fl_decode(F_DOUBLE, b).k == FIN, f.eb * 64 + f.fb, b, 2); SHOW(s, "%s of double %.17g", a.name.c_str(), bits_d(b)); verdict(a, "conversion", strf("double bits %#llx", (unsigned long long)b), val(F_DOUBLE, b), a.from_d(bits_d(b)));
    uint32_t fb = f_bits((float)val(f, near)) + (uint32_t)s.range(-3, 3); verdict(a, "conversion", strf("float bits %#x", fb), val(F_SINGLE, fb), a.from_f(bits_f(fb))); }
}
static void consts(Src& s) {
  IAny& a = *g_anys[s.draw(g_anys.size())]; const FFmt& f = a.f; int i = (int)s.draw(12); u64 g = a.cst(i); s.note(true, f.eb * 64 + f.fb, i, a.dbl); s.covered = true; SHOW(s, "%s constant %d", a.name.c_str(), i);
  u64 one = (u64)f.bias() << f.fb; u64 w[] = {0, f.infb(), f.infb(), f.infb() | f.sign(), f.maxfin(), 1ull << f.fb, f.maxfin() | f.sign(), 0, f.infb(), one, one + (1ull << f.fb), 0};
  if (i == 7 ? !fl_isnan(f, g) : g != w[i]) fail("%s: constant %d is %#llx, expected %#llx", a.name.c_str(), i, (unsigned long long)g, (unsigned long long)w[i]);
}
CHECK_MAIN("P18", "all operands are finite and non-zero") {
  std::vector<Exh> e2, e1;
  for (size_t i = 0; i < g_anys.size(); i++) { int n = g_anys[i]->f.bits(); if (n == 8) e2.push_back(Exh{65536, [i](u64 x, std::vector<u64>& o) { o = {i, 0, x >> 8, 0, 0, x & 255}; }}); if (n <= 16) e1.push_back(Exh{1ull << n, [i](u64 x, std::vector<u64>& o) { o = {i, 0, x}; }}); }
  c.bodies.push_back(Body{"pairs", pairs, 2500, 100000, e2, {"truncated", "subnormal result", "largest finite result"}});
  c.bodies.push_back(Body{"unary", unary, 2500, 80000, e1, {}});
  c.bodies.push_back(Body{"fma", fmas, 2500, 80000, {}, {}});
  c.bodies.push_back(Body{"from-native", from, 4000, 80000, {}, {}});
  c.bodies.push_back(Body{"constants", consts, 0, 0, {Exh{g_anys.size() * 12, [](u64 i, std::vector<u64>& o) { o = {i / 12, i % 12}; }}}, {}});
}
