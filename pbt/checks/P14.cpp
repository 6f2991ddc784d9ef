#include "../gen.hpp"
static int EXN() { return g_thorough ? 20 : 14; }
static void body(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 v = gen_pat(s, f); Dy x = ref_decode(f, v), one = dy_from_int(1);
  s.covered = f.N <= EXN(); s.note(x.k == FIN, cfg_id(c), v); SHOW(s, "%s shortcuts of %s", c.name.c_str(), PV(c, v));
  bool num = x.k == FIN || x.k == ZERO, unit = num && !x.neg && dy_cmp(x, one) <= 0;
  if (c.ur(v) != unit) fail("%s: unit range test of %s is %d", c.name.c_str(), PV(c, v), (int)c.ur(v));
  if (!num) return;
  if (unit) { s.cls(0);
    Dy m = dy_sub(one, x); if (!ref_exact(f, m)) fail("reference: 1-x is not a posit");
    i64 w = ref_encode(f, m); expect(c, "one minus x", c.urm(v), w);
    expect(c, "x(1-x)", c.urd(v), ref_encode(f, dy_mul(x, m)));
  }
  i64 g = c.sigm(v), p = c.softp(v); check_canon(c, g, "sigmoid"); check_canon(c, p, "softplus");
  if (g < 0 || ref_kind(f, g) == INF || dy_cmp(ref_decode(f, g), one) > 0) fail("%s: sigmoid of %s is %lld, outside [0,1]", c.name.c_str(), PV(c, v), (long long)g);
  if (p < 0 || p > f.maxpos()) fail("%s: softplus of %s is %lld, outside [0, largest]", c.name.c_str(), PV(c, v), (long long)p);
  Dy two = dy_from_int(2), G = ref_decode(f, g), P = ref_decode(f, p);
  if (dy_cmpmag(x, one) <= 0) { s.cls(1); expect(c, "sigmoid", g, ref_encode(f, dy_scale(dy_add(x, two), -2)));
    expect(c, "softplus", p, ref_encode(f, x.neg ? dy_scale(dy_add(x, two), -1) : dy_add(one, x))); }
  else if (!x.neg) { s.cls(2); expect(c, "softplus", p, ref_encode(f, dy_scale(x, 1))); i64 h = c.sigm(-v), u = 1ll << (f.N - 2); if (g + h != u && g + h != u - 1) fail("%s: sigmoid of %s and of its opposite are %s and %s, sum not one", c.name.c_str(), PV(c, v), PV(c, g), PV(c, h)); }
  else { s.cls(3); // r = 1/(4|x|): r - step <= sigmoid <= 9/8 r
    long double ax = ldexpl((long double)x.m, (int)x.e - 63), r = 1 / (4 * ax), st = ldexpl(1, 2 - f.N), sg = G.k == ZERO ? 0 : ldexpl((long double)G.m, (int)G.e - 63), sp = P.k == ZERO ? 0 : ldexpl((long double)P.m, (int)P.e - 63);
    if (sg < r - st * 1.0001L || sg > r * 1.125001L) fail("%s: sigmoid of %s is %s, expected between %Lg - one step and %Lg", c.name.c_str(), PV(c, v), PV(c, g), r, r * 1.125L);
    if (sp < 2 * r - st * 1.0001L || sp > r * 2.250002L) fail("%s: softplus of %s is %s, expected between %Lg - one step and %Lg", c.name.c_str(), PV(c, v), PV(c, p), 2 * r, r * 2.25L); }
  double xd = x.k == ZERO ? 0 : ldexp((double)x.m, (int)x.e - 63) * (x.neg ? -1 : 1), gd = G.k == ZERO ? 0 : ldexp((double)G.m, (int)G.e - 63);
  if (fabs(gd - 1 / (1 + exp(-xd))) > 0.05 + ldexp(1, 2 - f.N)) fail("%s: sigmoid of %s is %s, too far from the logistic function", c.name.c_str(), PV(c, v), PV(c, g));
  if (v < f.maxpos()) { if (c.sigm(v + 1) < g) fail("%s: sigmoid decreases after %s", c.name.c_str(), PV(c, v)); if (c.softp(v + 1) < p) fail("%s: softplus decreases after %s", c.name.c_str(), PV(c, v)); }
  // any larger argument
  i64 o = gen_pat(s, f); Dy y = ref_decode(f, o);
  if (y.k == FIN || y.k == ZERO) { bool le = dy_cmp(x, y) <= 0; i64 go = c.sigm(o), po = c.softp(o); if (le ? go < g || po < p : go > g || po > p) fail("%s: sigmoid or softplus not monotone between %s and %s", c.name.c_str(), PV(c, v), PV(c, o)); }
}
CHECK_MAIN("P14", "the argument is finite and non-zero") {
  c.bodies.push_back(Body{"shortcuts", body, 6000, 150000, exh_unary(EXN()), {"in [0,1]", "in [-1,1]", "above 1", "below -1"}});
}
