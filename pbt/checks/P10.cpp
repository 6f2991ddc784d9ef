#include "../gen.hpp"
static int EXN() { return g_thorough ? 20 : 14; }
static void one(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f); Dy x = ref_decode(f, a);
  s.covered = f.N <= EXN(); s.note(x.k == FIN, cfg_id(c), a); s.cls(x.k); SHOW(s, "%s half/twice %s", c.name.c_str(), PV(c, a));
  i64 wh = x.k == FIN ? ref_encode(f, dy_scale(x, -1)) : a, wt = x.k == FIN ? ref_encode(f, dy_scale(x, 1)) : a;
  if (x.k == FIN) { if (!ref_exact(f, dy_scale(x, -1))) s.cls(4); if (!ref_exact(f, dy_scale(x, 1))) s.cls(5); }
  i64 h = c.half(a), t = c.twice(a);
  if (h != wh) fail("%s: half of %s is %lld, expected %s", c.name.c_str(), PV(c, a), (long long)h, PV(c, wh));
  if (t != wt) fail("%s: twice %s is %lld, expected %s", c.name.c_str(), PV(c, a), (long long)t, PV(c, wt));
  if (x.k == FIN) {
    i64 two = ref_encode(f, dy_from_int(2));
    if (ref_exact(f, dy_from_int(2))) {
      i64 d = c.div(a, two), m = c.mul(a, two);
      if (d != h) fail("%s: half of %s is %lld but dividing by two gives %lld", c.name.c_str(), PV(c, a), (long long)h, (long long)d);
      if (m != t) fail("%s: twice %s is %lld but multiplying by two gives %lld", c.name.c_str(), PV(c, a), (long long)t, (long long)m);
    }
  }
}
CHECK_MAIN("P10", "the operand is finite and non-zero") {
  c.bodies.push_back(Body{"half-twice", one, 6000, 200000, exh_unary(EXN()), {"finite", "infinity", "NaN", "zero", "half inexact", "double inexact"}});
}
