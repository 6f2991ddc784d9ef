#include "../gen.hpp"
static int EXN() { return g_thorough ? 10 : 8; }
static int EXU() { return g_thorough ? 20 : 14; }
static void pairs(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f), b = gen_rel(s, f, a, c.ftb);
  Dy x = ref_decode(f, a), y = ref_decode(f, b);
  s.covered = f.N <= EXN(); s.note(x.k == FIN && y.k == FIN, cfg_id(c), a, b); SHOW(s, "%s divide %s by %s", c.name.c_str(), PV(c, a), PV(c, b));
  if (x.k == NAN_ || x.k == INF || y.k != FIN) return;
  Dy q = dy_div(x, y); i64 w = ref_encode(f, q);
  if (q.k == FIN) { s.cls(ref_exact(f, q) ? 3 : 0); if (dy_cmpmag(q, ref_decode(f, f.maxpos())) > 0) s.cls(1); if (dy_cmpmag(q, ref_decode(f, 1)) < 0) s.cls(2); if (x.m < y.m) s.cls(4); }
  i64 g = c.div(a, b);
  if (g != w) fail("%s: %s / %s gives %lld, exact %s, expected %s", c.name.c_str(), PV(c, a), PV(c, b), (long long)g, dy_str(q).c_str(), PV(c, w));
  i64 o = 1ll << (f.N - 2);
  expect(c, "x/1", c.div(a, o), a); expect(c, "x/-1", c.div(a, -o), -a); expect(c, "y/y", c.div(b, b), o); expect(c, "0/y", c.div(0, b), 0);
}
static void recip(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f); Dy x = ref_decode(f, a);
  s.covered = f.N <= EXU(); s.note(x.k == FIN, cfg_id(c), a); SHOW(s, "%s reciprocal of %s", c.name.c_str(), PV(c, a));
  if (x.k != FIN) return;
  Dy q = dy_div(dy_from_int(1), x); i64 w = ref_encode(f, q);
  s.cls(x.m << 1 ? 0 : 1); if (dy_cmpmag(q, ref_decode(f, f.maxpos())) > 0) s.cls(2);
  for (int h = 0; h < 3; h++) { i64 g = c.inv(a, h); if (g != w) fail("%s: reciprocal of %s gives %lld, expected %s", c.name.c_str(), PV(c, a), (long long)g, PV(c, w)); }
  i64 g = c.div(1ll << (f.N - 2), a); if (g != w) fail("%s: one over %s gives %lld, the reciprocal is %s", c.name.c_str(), PV(c, a), (long long)g, PV(c, w));
}
CHECK_MAIN("P08", "the operands are finite and non-zero") {
  c.bodies.push_back(Body{"divide", pairs, 10000, 250000, exh_pairs(EXN()), {"inexact", "overflow", "underflow", "exact", "numerator fraction below the denominator's"}});
  c.bodies.push_back(Body{"reciprocal", recip, 4000, 100000, exh_unary(EXU()), {"with fraction", "power of two", "overflow"}});
}
