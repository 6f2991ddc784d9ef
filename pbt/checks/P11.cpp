#include "../gen.hpp"
static int EXN() { return g_thorough ? 20 : 14; }
static void steps(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f); Kind k = ref_kind(f, a);
  s.covered = f.N <= EXN(); s.note(k == FIN, cfg_id(c), a); SHOW(s, "%s next/prev of %s", c.name.c_str(), PV(c, a));
  bool fin = k == FIN || k == ZERO; i64 wn = fin && a < f.maxpos() ? a + 1 : a, wp = fin && a > f.lowest() ? a - 1 : a;
  if (a == f.maxpos() || a == f.lowest()) s.cls(0); else if (!fin) s.cls(1); else s.cls(2);
  i64 n = c.next(a), p = c.prev(a);
  if (n != wn) fail("%s: the posit after %s is %lld, expected %s", c.name.c_str(), PV(c, a), (long long)n, PV(c, wn));
  if (p != wp) fail("%s: the posit before %s is %lld, expected %s", c.name.c_str(), PV(c, a), (long long)p, PV(c, wp));
  if (wn != a && c.prev(n) != a) fail("%s: stepping up from %s and down again gives %lld", c.name.c_str(), PV(c, a), (long long)c.prev(n));
  if (wp != a && c.next(p) != a) fail("%s: stepping down from %s and up again gives %lld", c.name.c_str(), PV(c, a), (long long)c.next(p));
  // the reference order itself: the neighbour in the format is the next number
  if (wn != a && dy_cmp(ref_decode(f, a), ref_decode(f, wn)) >= 0) fail("reference order broken");
}
static void konst(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; s.note(true, cfg_id(c)); SHOW(s, "%s constants", c.name.c_str());
  Consts k = c.consts(); Limits l = c.limits(); i64 one = ref_encode(f, dy_from_int(1));
  Dy d1 = dy_from_int(1), nx = ref_decode(f, one + 1);
  expect(c, "zero()", k.zero, 0); expect(c, "the default value", k.dflt, 0); expect(c, "one()", k.one, one); expect(c, "mone()", k.mone, -one);
  expect(c, "two()", k.two, ref_encode(f, dy_from_int(2))); expect(c, "onehalf()", k.half, ref_encode(f, dy_scale(d1, -1)));
  expect(c, "min()", k.min, 1); expect(c, "max()", k.max, f.maxpos()); expect(c, "lowest()", k.lowest, f.lowest());
  expect(c, "inf()", k.inf, f.pinf(false)); expect(c, "pinf()", k.pinf, f.pinf(false)); expect(c, "ninf()", k.ninf, f.pinf(true)); expect(c, "infinity()", k.infinity, f.pinf(false)); expect(c, "nan()", k.nan, f.pnan());
  expect(c, "numeric_limits min", l.min, 1); expect(c, "numeric_limits max", l.max, f.maxpos()); expect(c, "numeric_limits lowest", l.lowest, f.lowest()); expect(c, "numeric_limits denorm_min", l.denorm_min, 1);
  expect(c, "numeric_limits infinity", l.inf, f.pinf(false)); expect(c, "numeric_limits quiet_NaN", l.nan, f.pnan());
  expect(c, "numeric_limits epsilon", l.eps, ref_encode(f, dy_sub(nx, d1)));
  if (l.modulo || l.traps || l.iec559 || l.snan) fail("%s: numeric_limits says that posits wrap around, trap, signal or are IEEE numbers (modulo %d, traps %d, iec559 %d, signaling %d)", c.name.c_str(), l.modulo, l.traps, l.iec559, l.snan);
  if (!l.spec || l.has_inf != (f.spec != WITHNAN) || !l.is_signed || l.is_integer || l.is_exact || l.radix != 2 || l.has_nan != (f.spec != WITHINF)) fail("%s: numeric_limits flags wrong", c.name.c_str());
  Dy mx = ref_decode(f, f.maxpos()), mn = ref_decode(f, 1);
  if (l.digits10 != (int)floor((f.N - 3) * log10(2.0))) fail("%s: numeric_limits digits10 is %d", c.name.c_str(), l.digits10);      // the widest fraction, in decimal
  if (f.es < 24 && (l.maxexp != mx.e || l.minexp != mn.e)) fail("%s: numeric_limits exponents %lld..%lld, expected %lld..%lld", c.name.c_str(), (long long)l.minexp, (long long)l.maxexp, (long long)mn.e, (long long)mx.e);
}
// stepping through a run of consecutive posits, in order
static void walk(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f); int n = (int)s.range(1, 40); bool up = s.draw(2);
  s.note(n > 1 && ref_kind(f, a) == FIN, cfg_id(c), a, n, up); SHOW(s, "%s %d steps %s from %s", c.name.c_str(), n, up ? "up" : "down", PV(c, a));
  i64 x = a, y = a; bool fin = ref_kind(f, a) == FIN || a == 0;
  for (int i = 0; i < n; i++) { x = up ? c.next(x) : c.prev(x); if (fin) y = up ? (y < f.maxpos() ? y + 1 : y) : (y > f.lowest() ? y - 1 : y); if (x != y) fail("%s: step %d %s from %s reaches %lld, expected %s", c.name.c_str(), i + 1, up ? "up" : "down", PV(c, a), (long long)x, PV(c, y)); }
}
CHECK_MAIN("P11", "the pattern is finite and non-zero (constants: every format)") {
  c.bodies.push_back(Body{"step", steps, 6000, 200000, exh_unary(EXN()), {"extreme", "special", "inside"}});
  c.bodies.push_back(Body{"walk", walk, 1000, 20000, {}, {}});
  std::vector<Exh> e; e.push_back(Exh{g_cfgs.size(), [](u64 x, std::vector<u64>& o) { o = {x}; }});
  c.bodies.push_back(Body{"constants", konst, 0, 0, e, {}});
}
