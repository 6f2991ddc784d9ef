#include "../gen.hpp"
static int EXN() { return g_thorough ? 10 : 8; }
static void pairs(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f), b = gen_rel(s, f, a, c.ftb);
  Dy x = ref_decode(f, a), y = ref_decode(f, b);
  s.covered = f.N <= EXN(); s.note(x.k == FIN && y.k == FIN, cfg_id(c), a, b); SHOW(s, "%s multiply %s by %s", c.name.c_str(), PV(c, a), PV(c, b));
  if (x.k == NAN_ || x.k == INF || y.k == NAN_ || y.k == INF) return;
  Dy pr = dy_mul(x, y); i64 w = ref_encode(f, pr);
  if (pr.k == FIN) { if (!ref_exact(f, pr)) s.cls(0); if (dy_cmpmag(pr, ref_decode(f, f.maxpos())) > 0) s.cls(1); if (dy_cmpmag(pr, ref_decode(f, 1)) < 0) s.cls(2); if ((pr.e == x.e + y.e)) s.cls(3); else s.cls(4); }
  i64 g = c.mul(a, b), h = c.mul(b, a);
  if (g != w) fail("%s: %s * %s gives %lld, exact %s, expected %s", c.name.c_str(), PV(c, a), PV(c, b), (long long)g, dy_str(pr).c_str(), PV(c, w));
  if (h != w) fail("%s: %s * %s gives %lld, expected %s", c.name.c_str(), PV(c, b), PV(c, a), (long long)h, PV(c, w));
  i64 o = 1ll << (f.N - 2);
  expect(c, "x*1", c.mul(a, o), a); expect(c, "1*x", c.mul(o, a), a); expect(c, "x*-1", c.mul(a, -o), -a); expect(c, "x*0", c.mul(a, 0), 0);
}
CHECK_MAIN("P07", "both operands are finite and non-zero") {
  c.bodies.push_back(Body{"multiply", pairs, 12000, 300000, exh_pairs(EXN()), {"inexact", "overflow", "underflow", "no carry", "carry"}});
}
