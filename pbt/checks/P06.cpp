#include "../gen.hpp"
static int EXN() { return g_thorough ? 10 : 8; }
static void verdict(IPosit& c, const char* op, i64 a, i64 b, const Dy& exact, bool like, i64 g) {
  check_canon(c, g, op);
  if (like ? g != ref_encode(c.f, exact) : !ref_faithful(c.f, exact, g))
    fail("%s: %s %s %s gives %s, exact result %s, %s %s", c.name.c_str(), PV(c, a), op, PV(c, b), ref_kind(c.f, g) == FIN || g == 0 ? PV(c, g) : strf("%lld", (long long)g).c_str(), dy_str(exact).c_str(), like ? "expected" : "nearest toward zero", PV(c, ref_encode(c.f, exact)));
}
static void pairs(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f), b = gen_rel(s, f, a, c.ftb);
  Dy x = ref_decode(f, a), y = ref_decode(f, b); bool num = (x.k == FIN || x.k == ZERO) && (y.k == FIN || y.k == ZERO);
  s.covered = f.N <= EXN(); s.note(x.k == FIN && y.k == FIN, cfg_id(c), a, b); SHOW(s, "%s add/sub %s and %s", c.name.c_str(), PV(c, a), PV(c, b));
  if (!num) return;
  Dy sum = dy_add(x, y), dif = dy_sub(x, y); bool lk = x.neg == y.neg || x.k == ZERO || y.k == ZERO, lkd = x.neg != y.neg || x.k == ZERO || y.k == ZERO;
  if (x.k == FIN && y.k == FIN) { s.cls(lk ? 0 : 1); if (!ref_exact(f, sum) || !ref_exact(f, dif)) s.cls(2); if (sum.k == ZERO || dif.k == ZERO) s.cls(3); i64 d = x.e - y.e; if (d < 0) d = -d; if (d >= c.ftb) s.cls(4); if (sum.k == FIN && dy_cmpmag(sum, ref_decode(f, f.maxpos())) > 0) s.cls(5); }
  i64 p = c.add(a, b), q = c.add(b, a), m = c.sub(a, b), w = c.sub(b, a);
  verdict(c, "+", a, b, sum, lk, p); verdict(c, "+", b, a, sum, lk, q); verdict(c, "-", a, b, dif, lkd, m); verdict(c, "-", b, a, dy_neg(dif), lkd, w);
  if (p != q) fail("%s: %s + %s is %lld but the reverse is %lld", c.name.c_str(), PV(c, a), PV(c, b), (long long)p, (long long)q);
  if (m != -w) fail("%s: %s - %s is %lld but the reverse is %lld", c.name.c_str(), PV(c, a), PV(c, b), (long long)m, (long long)w);
  i64 m2 = c.add(a, -b); if (m != m2) fail("%s: %s - %s is %lld but adding the opposite gives %lld", c.name.c_str(), PV(c, a), PV(c, b), (long long)m, (long long)m2);
  expect(c, "x-x", c.sub(a, a), 0); expect(c, "x+0", c.add(a, 0), a); expect(c, "0+x", c.add(0, a), a); expect(c, "x-0", c.sub(a, 0), a); expect(c, "0-x", c.sub(0, a), -a);
}
CHECK_MAIN("P06", "both operands are finite and non-zero") {
  c.bodies.push_back(Body{"add-sub", pairs, 10000, 250000, exh_pairs(EXN()), {"like signs", "unlike signs", "inexact", "cancels to zero", "exponents further apart than the fraction", "overflow"}});
}
