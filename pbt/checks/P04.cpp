#include "../gen.hpp"
static int EXN() { return g_thorough ? 10 : 8; }
static void pairs(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f), b = gen_rel(s, f, a, c.ftb);
  s.covered = f.N <= EXN(); s.note(a != b, cfg_id(c), a, b); SHOW(s, "%s compare %s with %s", c.name.c_str(), PV(c, a), PV(c, b));
  Dy x = ref_decode(f, a), y = ref_decode(f, b); int g = c.cmp(a, b), w; const char* n = c.name.c_str();
  bool nan = x.k == NAN_ || y.k == NAN_;
  if (nan) { w = 2; s.cls(0); }
  else if (f.spec == WITHINF && (x.k == INF) != (y.k == INF)) {   // the unsigned infinity has no numeric place: only consistency
    s.cls(1); bool lt = g >> 2 & 1;
    w = lt ? (2 | 4 | 8) : (2 | 16 | 32);
  } else { int r = dy_cmp(x, y); if (f.spec == WITHINF && x.k == INF) r = 0; w = r < 0 ? (2 | 4 | 8) : r > 0 ? (2 | 16 | 32) : (1 | 8 | 32); s.cls(r == 0 ? 2 : 3); }
  if (g != w) fail("%s: comparing %s with %s gives (==|!=|<|<=|>|>=) %#x, expected %#x", n, PV(c, a), PV(c, b), g, w);
  i64 mn = c.mn(a, b), mx = c.mx(a, b);
  if (mn != a && mn != b) fail("%s: min of %lld and %lld is %lld", n, (long long)a, (long long)b, (long long)mn);
  if (mx != a && mx != b) fail("%s: max of %lld and %lld is %lld", n, (long long)a, (long long)b, (long long)mx);
  if (!nan) { bool lt = w & 4; i64 wm = lt ? a : b, wx = lt ? b : a;
    if (mn != wm) fail("%s: min of %s and %s is %lld", n, PV(c, a), PV(c, b), (long long)mn);
    if (mx != wx) fail("%s: max of %s and %s is %lld", n, PV(c, a), PV(c, b), (long long)mx); }
  // transitivity and antisymmetry follow from agreement with the numbers; reversed call agrees
  int rv = c.cmp(b, a), ww = (w & 3) | (w & 4) << 2 | (w & 8) << 2 | (w & 16) >> 2 | (w & 32) >> 2;
  if (rv != ww) fail("%s: comparing %s with %s disagrees with the reverse comparison", n, PV(c, b), PV(c, a));
}
CHECK_MAIN("P04", "the two patterns differ") {
  c.bodies.push_back(Body{"compare", pairs, 12000, 300000, exh_pairs(EXN()), {"with NaN", "unsigned infinity with a number", "equal", "ordered"}});
}
