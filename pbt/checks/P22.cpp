#include "../gen.hpp"
// value of the backing native type: the posit's value truncated into it
static double nv(const IPosit& c, i64 v) {
  Dy d = ref_decode(c.f, v); if (c.ftb == 32) return bits_f((uint32_t)fl_encode(F_SINGLE, d)); return bits_d(fl_encode(F_DOUBLE, d));
}
static double nat(const IPosit& c, int op, double x, double y) {
  if (c.ftb == 64) { volatile double p = x, q = y, r; switch (op) { case 0: r = p + q; break; case 1: r = p - q; break; case 2: r = p * q; break; default: r = p / q; } return r; }
  volatile float p = (float)x, q = (float)y, r; switch (op) { case 0: r = p + q; break; case 1: r = p - q; break; case 2: r = p * q; break; default: r = p / q; } return r;
}
static i64 enc(const IPosit& c, double w) { return ref_encode(c.f, dy_from_double(w)); }
static void chk(IPosit& c, const char* op, i64 x, i64 y, i64 g, i64 w) { if (g != w) fail("%s: %s of %s and %s gives %lld, expected %s", c.name.c_str(), op, PV(c, x), PV(c, y), (long long)g, PV(c, w)); }
static void pairs(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 x = gen_pat(s, f), y = gen_rel(s, f, x, c.ftb); Dy a = ref_decode(f, x), b = ref_decode(f, y); s.covered = f.N <= 10; s.note(a.k == FIN && b.k == FIN, cfg_id(c), x, y); SHOW(s, "%s %s and %s", c.name.c_str(), PV(c, x), PV(c, y));
  double p = nv(c, x), q = nv(c, y); i64 ny = y == f.top() ? y : -y; bool ui = f.spec == WITHINF;
  i64 ws = x == 0 ? y : y == 0 ? x : enc(c, nat(c, 0, p, q)), wd = x == 0 ? ny : y == 0 ? x : enc(c, nat(c, 0, p, nv(c, ny)));
  if (ui && (a.k == INF || b.k == INF)) ws = wd = f.top();
  chk(c, "sum", x, y, c.add(x, y), ws); chk(c, "+=", x, y, c.compound(0, x, y), ws); chk(c, "difference", x, y, c.sub(x, y), wd);
  i64 wm = enc(c, nat(c, 2, p, q)), wq = enc(c, nat(c, 3, p, q)); chk(c, "product", x, y, c.mul(x, y), wm); chk(c, "*=", x, y, c.compound(1, x, y), wm); chk(c, "quotient", x, y, c.div(x, y), wq);
  // where the native operation is exact the result is the exact one truncated
  if (a.k == FIN && b.k == FIN && dy_same(dy_from_double(p), a) && dy_same(dy_from_double(q), b)) { Dy e = dy_mul(a, b), n = dy_from_double(nat(c, 2, p, q)); if (dy_same(e, n)) { s.cls(0); chk(c, "product", x, y, c.mul(x, y), ref_encode(f, e)); } }
  bool un = a.k == NAN_ || b.k == NAN_; int w = un ? 2 : (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; if (c.cmp(x, y) != w) fail("%s: comparisons of %s and %s are %#x, expected %#x", c.name.c_str(), PV(c, x), PV(c, y), c.cmp(x, y), w);
  if (!un) { chk(c, "min", x, y, c.mn(x, y), std::min(x, y)); chk(c, "max", x, y, c.mx(x, y), std::max(x, y)); }
}
static void unary(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 x = gen_pat(s, f); Dy a = ref_decode(f, x); s.covered = f.N <= 16; s.note(a.k == FIN, cfg_id(c), x); SHOW(s, "%s %s", c.name.c_str(), PV(c, x)); double p = nv(c, x); i64 top = f.top();
  chk(c, "half", x, x, c.half(x), enc(c, 0.5 * p)); chk(c, "twice", x, x, c.twice(x), enc(c, nat(c, 2, 2, p))); for (int k = 0; k < 3; k++) chk(c, "reciprocal", x, x, c.inv(x, k), x == 0 ? f.pinf(false) : enc(c, nat(c, 3, 1, p)));
  for (int k = 0; k < 3; k++) chk(c, "negation", x, x, c.neg(x, k), x == top ? x : -x); for (int k = 0; k < 2; k++) chk(c, "abs", x, x, c.abs_(x, k), x == top || x > 0 ? x : -x);
  chk(c, "next", x, x, c.next(x), x < f.lowest() || x >= f.maxpos() ? x : x + 1); chk(c, "prev", x, x, c.prev(x), x > f.maxpos() || x <= f.lowest() ? x : x - 1);
  for (int k = 0; k < 2; k++) { chk(c, "fields round trip", x, x, c.relow(x, k), x); chk(c, "unpacked round trip", x, x, c.refull(x, k), x); Full u = k ? c.full(x) : c.low2full(x); bool ui = a.k == INF && f.spec == WITHINF; Dy t = dy_chop(a, c.ftb + 1 > 64 ? 64 : c.ftb + 1); if (u.type != a.k || (a.k == FIN && (u.neg != a.neg || u.exp != a.e || u.frac != t.m << 1)) || (a.k == INF && !ui && u.neg != a.neg)) fail("%s: %s decodes wrongly", c.name.c_str(), PV(c, x)); }
  int w = (a.k == NAN_) | (a.k == INF) << 1 | (x == 0) << 2 | (x == 1ll << (f.N - 2)) << 3 | (x < 0) << 4 | (f.spec != WITHINF) << 5; if (c.preds(x) != w) fail("%s: predicates of %s are %#x, expected %#x", c.name.c_str(), PV(c, x), c.preds(x), w);
  uint32_t tf = c.to_fbits(x, 0); u64 td = c.to_dbits(x); Dy m = a;
  if (a.k == NAN_) { if (!fl_isnan(F_SINGLE, tf) || !fl_isnan(F_DOUBLE, td)) fail("%s: NaN converts to a number", c.name.c_str()); }
  else { if (a.k == INF && f.spec == WITHINF) m.neg = tf >> 31; if ((tf & 0x7fffffff ? tf : 0) != fl_encode(F_SINGLE, m) || (td << 1 ? td : 0) != fl_encode(F_DOUBLE, m)) fail("%s: %s converts to float %#x, double %#llx", c.name.c_str(), PV(c, x), tf, (unsigned long long)td);
    if (a.k != INF) { i64 w = a.k == ZERO || a.e < 0 ? 0 : a.e >= 31 ? (a.neg ? INT32_MIN : INT32_MAX) : (a.neg ? -1 : 1) * (i64)(a.m >> (63 - a.e)); if (c.to_i(x) != w) fail("%s: %s to int gives %d, expected %lld", c.name.c_str(), PV(c, x), c.to_i(x), (long long)w); } }
  bool num = a.k == FIN || a.k == ZERO, unit = num && x >= 0 && x <= 1ll << (f.N - 2); if (c.ur(x) != unit) fail("%s: unit range test of %s", c.name.c_str(), PV(c, x));
  if (f.es == 0 && num) { i64 sg = (i64)((((u64)x ^ (1ull << (f.N - 1))) & f.mask()) >> 2), sp = x == f.maxpos() ? x : (i64)((((u64)x ^ (1ull << (f.N - 1))) & f.mask()) >> 1); chk(c, "sigmoid", x, x, c.sigm(x), sg); chk(c, "softplus", x, x, c.softp(x), sp); if (unit) { i64 m = (1ll << (f.N - 2)) - x; chk(c, "one minus x", x, x, c.urm(x), m); chk(c, "x(1-x)", x, x, c.urd(x), enc(c, nat(c, 2, p, nv(c, m)))); } }
}
static void fmas(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 x = gen_pat(s, f), y = gen_rel(s, f, x, c.ftb), z = s.draw(2) ? gen_pat(s, f) : gen_rel(s, f, enc(c, nat(c, 2, nv(c, x), nv(c, y))), c.ftb); s.note(ref_kind(f, x) == FIN && ref_kind(f, y) == FIN && ref_kind(f, z) == FIN, cfg_id(c), x, y, z); SHOW(s, "%s fma %s %s %s", c.name.c_str(), PV(c, x), PV(c, y), PV(c, z));
  if (f.spec == WITHINF && ref_kind(f, z) == INF) return; double m = nat(c, 2, nv(c, x), nv(c, y)); i64 w = enc(c, nat(c, 0, m, nv(c, z))); chk(c, "fma", x, y, c.fma_(x, y, z), w);
}
static void from(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f;
  switch (s.draw(3)) {
    case 0: { uint32_t b = gen_fbits(s, f); Dy d = fl_decode(F_SINGLE, b); s.note(d.k == FIN, cfg_id(c), b, 1); SHOW(s, "%s of float %.9g", c.name.c_str(), bits_f(b)); expect(c, "conversion of a float", c.from_f(bits_f(b)), ref_encode(f, d)); break; }
    case 1: { u64 b = gen_dbits(s, f); Dy d = fl_decode(F_DOUBLE, b); s.note(d.k == FIN, cfg_id(c), b, 2); SHOW(s, "%s of double %.17g", c.name.c_str(), bits_d(b)); expect(c, "conversion of a double", c.from_d(bits_d(b)), ref_encode(f, d)); break; }
    default: { int i = gen_int(s); s.note(i != 0, cfg_id(c), i, 3); SHOW(s, "%s of int %d", c.name.c_str(), i); expect(c, "conversion of an int", c.from_i(i), ref_encode(f, dy_from_int(i))); }
  }
}
static void consts(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; s.covered = true; s.note(true, cfg_id(c)); SHOW(s, "%s constants", c.name.c_str()); Consts k = c.consts(); Limits l = c.limits(); i64 one = 1ll << (f.N - 2), eps = enc(c, nat(c, 1, nv(c, one + 1), 1));
#define K(n, w) expect(c, "constant " #n, n, w)
  K(k.zero, 0); K(k.one, one); K(k.two, ref_encode(f, dy_from_int(2))); K(k.mone, -one); K(k.half, ref_encode(f, dy_make(false, 1, -1))); K(k.min, 1); K(k.max, f.maxpos()); K(k.lowest, f.lowest()); K(k.inf, f.pinf(false)); K(k.pinf, f.pinf(false)); K(k.ninf, f.pinf(true)); K(k.infinity, f.pinf(false)); K(k.nan, f.top());
  K(l.min, 1); K(l.max, f.maxpos()); K(l.lowest, f.lowest()); K(l.eps, eps); K(l.inf, f.pinf(false)); K(l.nan, f.top()); K(l.denorm_min, 1); if (l.minexp != ref_decode(f, 1).e || l.maxexp != ref_decode(f, f.maxpos()).e) fail("%s: exponent range %lld..%lld", c.name.c_str(), (long long)l.minexp, (long long)l.maxexp);
  if (!l.spec || l.has_inf != (f.spec != WITHNAN) || !l.is_signed || l.is_integer || l.is_exact || l.radix != 2 || l.has_nan != (f.spec != WITHINF) || l.modulo || l.traps || l.iec559 || l.snan) fail("%s: numeric_limits flags wrong", c.name.c_str());
}
CHECK_MAIN("P22", "all operands are finite and non-zero") {
  c.bodies.push_back(Body{"pairs", pairs, 3000, 80000, exh_pairs(g_thorough ? 12 : 10), {"exact native product"}});
  c.bodies.push_back(Body{"unary", unary, 2500, 60000, exh_unary(16), {}});
  c.bodies.push_back(Body{"fma", fmas, 2500, 60000, {}, {}});
  c.bodies.push_back(Body{"from-native", from, 2500, 60000, {}, {}});
  c.bodies.push_back(Body{"constants", consts, 0, 0, {Exh{g_cfgs.size(), [](u64 i, std::vector<u64>& o) { o = {i}; }}}, {}});
}
