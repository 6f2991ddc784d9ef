#include "../gen.hpp"
static int EXN() { return g_thorough ? 20 : 14; }
static void one(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 v = gen_pat(s, f); Dy d = ref_decode(f, v);
  s.covered = f.N <= EXN(); s.note(v != 0, cfg_id(c), v); s.cls(d.k); SHOW(s, "%s negate/abs %s", c.name.c_str(), PV(c, v));
  i64 w = v == f.top() ? v : -v, wa = v == f.top() ? v : v < 0 ? -v : v;
  for (int h = 0; h < 3; h++) { i64 g = c.neg(v, h); check_canon(c, g, "negation"); if (g != w) fail("%s: negation of %s is %lld", c.name.c_str(), PV(c, v), (long long)g); i64 b = c.neg(g, h); if (b != v) fail("%s: %s negated twice is %lld", c.name.c_str(), PV(c, v), (long long)b); }
  for (int h = 0; h < 2; h++) { i64 g = c.abs_(v, h); check_canon(c, g, "absolute value"); if (g != wa) fail("%s: absolute value of %s is %lld", c.name.c_str(), PV(c, v), (long long)g); if (c.abs_(c.neg(v, 0), h) != wa) fail("%s: |%s| differs from |-x|", c.name.c_str(), PV(c, v)); }
  // the result is a valid pattern: it compares, is recognised and unpacks as what it is
  i64 g = c.neg(v, 0); int p = c.preds(g);
  if ((p & 1) != (d.k == NAN_) || (p >> 1 & 1) != (d.k == INF) || (p >> 2 & 1) != (d.k == ZERO)) fail("%s: the negation of %s is not recognised as the same kind", c.name.c_str(), PV(c, v));
  Full u = c.full(g); if (u.type != d.k) fail("%s: the negation of %s unpacks as another kind", c.name.c_str(), PV(c, v));
  int e = c.cmp(g, w); if (d.k != NAN_ && !(e & 1)) fail("%s: the negation of %s does not compare equal to its opposite", c.name.c_str(), PV(c, v));
  if (d.k == NAN_ && (e & 1)) fail("%s: negated NaN compares equal", c.name.c_str());
}
CHECK_MAIN("P05", "the pattern is not zero") {
  c.bodies.push_back(Body{"negate-abs", one, 6000, 200000, exh_unary(EXN()), {"finite", "infinity", "NaN", "zero"}});
}
