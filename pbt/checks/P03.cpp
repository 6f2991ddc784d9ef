#include "../gen.hpp"
static int EXN() { return g_thorough ? 18 : 12; }
static void floats(Src& s, IPosit& c, i64 v, const Dy& d, const FFmt& t, u64 got, const char* what) {
  bool ok;
  u64 mag = got & ~t.sign();
  if (d.k == NAN_) ok = fl_isnan(t, got);
  else if (d.k == INF) ok = mag == t.infb() && (c.f.spec == WITHINF || ((got & t.sign()) != 0) == d.neg);
  else { u64 w = fl_encode(t, d); ok = got == w || (w == 0 && mag == 0); }
  if (!ok) fail("%s: %s of %s has bits %#llx, expected %#llx", c.name.c_str(), what, PV(c, v), (unsigned long long)got, (unsigned long long)fl_encode(t, d));
  if (d.k == FIN) { Dy e = fl_decode(t, got); if (!dy_same(e, d)) s.cls(4); if ((mag >> t.fb) == 0 && mag) s.cls(5); if (mag == 0) s.cls(6); if (mag == t.maxfin()) s.cls(7); }
}
static void to_floats(Src& s) {
  IPosit& c = gen_cfg(s); i64 v = gen_pat(s, c.f); Dy d = ref_decode(c.f, v);
  s.covered = c.f.N <= EXN(); s.note(d.k == FIN, cfg_id(c), v); s.cls(d.k); SHOW(s, "%s to float/double/half of %s", c.name.c_str(), PV(c, v));
  floats(s, c, v, d, F_SINGLE, c.to_fbits(v, 0), "float");
  floats(s, c, v, d, F_SINGLE, c.to_fbits(v, 1), "float bits");
  floats(s, c, v, d, F_DOUBLE, c.to_dbits(v), "double");
  floats(s, c, v, d, F_HALF, c.to_hbits(v), "half");
  // identity through double
  u64 db = c.to_dbits(v);
  if (d.k == ZERO || d.k == NAN_ || d.k == INF || dy_same(fl_decode(F_DOUBLE, db), d)) {
    i64 back = c.from_d(bits_d(db)); if (back != v) fail("%s: %s through double comes back as %lld", c.name.c_str(), PV(c, v), (long long)back); }
  uint32_t fb = c.to_fbits(v, 0);
  if (d.k == FIN && dy_same(fl_decode(F_SINGLE, fb), d)) { i64 back = c.from_f(bits_f(fb)); if (back != v) fail("%s: %s through float comes back as %lld", c.name.c_str(), PV(c, v), (long long)back); }
}
static i64 want_int(const Dy& d) {
  if (d.k == ZERO || d.e < 0) return 0;
  if (d.e >= 31) return d.neg ? INT32_MIN : INT32_MAX;
  i64 m = (i64)(d.m >> (63 - d.e)); return d.neg ? -m : m;
}
static void to_int(Src& s) {
  IPosit& c = gen_cfg(s); i64 v = gen_pat(s, c.f); Dy d = ref_decode(c.f, v);
  if (d.k == NAN_ || d.k == INF) { s.note(false, cfg_id(c), v); return; }
  s.covered = c.f.N <= EXN(); s.note(d.k == FIN && d.e >= 0, cfg_id(c), v); SHOW(s, "%s to int of %s", c.name.c_str(), PV(c, v));
  if (d.e >= 31) s.cls(0); else if (d.e >= 0 && d.k == FIN) s.cls(1); else s.cls(2);
  int g = c.to_i(v); i64 w = want_int(d);
  if (g != w) fail("%s: int of %s is %d, expected %lld", c.name.c_str(), PV(c, v), g, (long long)w);
}
static void to_int_near(Src& s) {   // posits around the int range and around integers
  IPosit& c = gen_cfg(s); Dy x = dy_from_int(s.draw(3) ? (i64)gen_int(s) : (s.draw(2) ? 2147483648ll : -2147483648ll)); x = dy_scale(x, s.range(-2, 2));
  i64 v = ref_encode(c.f, x); v = c.f.sext(((u64)v + (u64)s.range(-2, 2)) & c.f.mask()); Dy d = ref_decode(c.f, v);
  if (d.k == NAN_ || d.k == INF) { s.note(false, cfg_id(c), v); return; }
  s.covered = c.f.N <= EXN(); s.note(d.k == FIN && d.e >= 0, cfg_id(c), v); SHOW(s, "%s to int of %s", c.name.c_str(), PV(c, v));
  if (d.e >= 31) s.cls(0); else if (d.e >= 0 && d.k == FIN) s.cls(1); else s.cls(2);
  int g = c.to_i(v); i64 w = want_int(d);
  if (g != w) fail("%s: int of %s is %d, expected %lld", c.name.c_str(), PV(c, v), g, (long long)w);
}
CHECK_MAIN("P03", "the pattern denotes a finite non-zero number (to int: of magnitude at least one)") {
  c.bodies.push_back(Body{"to-float-double-half", to_floats, 4000, 120000, exh_unary(EXN()), {"finite", "infinity", "NaN", "zero", "truncated", "subnormal result", "underflow to zero", "overflow"}});
  std::vector<std::string> ci = {"saturates", "in range", "below one"};
  c.bodies.push_back(Body{"to-int", to_int, 3000, 80000, exh_unary(EXN()), ci});
  c.bodies.push_back(Body{"to-int-near", to_int_near, 3000, 80000, {}, ci});
}
