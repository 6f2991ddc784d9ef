#include "../gen.hpp"
static int EXN() { return g_thorough ? 9 : 7; }
static i64 gen_sp(Src& s, const Fmt& f) {
  switch (s.draw(8)) {
    case 0: case 5: return gen_pat(s, f);
    case 1: return 0;
    case 2: return f.pnan();
    case 3: return f.pinf(false);
    case 4: return f.pinf(true);
    case 6: { i64 v = landmark(f, (int)s.draw(6)); return s.draw(2) ? -v : v; }
    default: { Dy d = dy_from_int(s.range(-9, 9)); return ref_encode(f, d); }
  }
}
enum { ANYSIGN = 1 };
// what the decoded result has to be: a special/zero kind, or "finite" when the operands decide a finite result
static void verdict(IPosit& c, const char* op, const std::string& args, const Dy& w, bool anysign, i64 g) {
  const Fmt& f = c.f; check_canon(c, g, op);
  bool ok;
  if (w.k == FIN) ok = ref_kind(f, g) == FIN;
  else if (w.k == INF && anysign) ok = g == f.pinf(false) || g == f.pinf(true);
  else ok = g == ref_encode(f, w);
  if (!ok) fail("%s: %s of %s gives %s, expected %s", c.name.c_str(), op, args.c_str(), PV(c, g), w.k == FIN ? "a finite non-zero number" : w.k == INF && anysign ? "an infinity" : PV(c, ref_encode(f, w)));
}
static Dy fold(const Fmt& f, const Dy& a, const Dy& b) { return sp_add(a, b, f.spec == WITHINF); }
static void ops(Src& s, IPosit& c, i64 a, i64 b) {
  const Fmt& f = c.f; Dy x = ref_decode(f, a), y = ref_decode(f, b);
  std::string ab; ab = pv(c, a) + " and " + pv(c, b);
  verdict(c, "sum", ab, fold(f, x, y), false, c.add(a, b));
  verdict(c, "difference", ab, y.k == INF && x.k == INF && f.spec == WITHINF ? dy_inf(0) : fold(f, x, dy_neg(y)), false, c.sub(a, b));
  verdict(c, "product", ab, sp_mul(x, y), false, c.mul(a, b));
  verdict(c, "quotient", ab, sp_div(x, y), false, c.div(a, b));
  verdict(c, "+=", ab, fold(f, x, y), false, c.compound(0, a, b));
  verdict(c, "*=", ab, sp_mul(x, y), false, c.compound(1, a, b));
  verdict(c, "/=", ab, sp_div(x, y), false, c.compound(2, a, b));
  Dy one = dy_from_int(1);
  for (int h = 0; h < 3; h++) verdict(c, "reciprocal", pv(c, a), sp_div(one, x), false, c.inv(a, h));
}
static bool special(const Dy& d) { return d.k != FIN; }
static void pairs(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_sp(s, f), b = gen_sp(s, f); Dy x = ref_decode(f, a), y = ref_decode(f, b);
  s.covered = f.N <= EXN(); s.note(special(x) || special(y), cfg_id(c), a, b); SHOW(s, "%s %s op %s", c.name.c_str(), PV(c, a), PV(c, b));
  if (x.k == NAN_ || y.k == NAN_) s.cls(0); if (x.k == INF || y.k == INF) s.cls(1); if (x.k == INF && y.k == INF) s.cls(2); if (y.k == ZERO && x.k == FIN) s.cls(3); if (x.k == ZERO && y.k == ZERO) s.cls(4); if (x.k == FIN && y.k == FIN) s.cls(5);
  s.cls(6 + f.spec);
  ops(s, c, a, b);
}
static void fused(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_sp(s, f), b = gen_sp(s, f), z = gen_sp(s, f);
  Dy p = sp_mul(ref_decode(f, a), ref_decode(f, b)), q = ref_decode(f, z); if (p.k == FIN) p.sticky = false;
  s.note(special(p) || special(q), cfg_id(c), a, b, z); SHOW(s, "%s fma(%s, %s, %s)", c.name.c_str(), PV(c, a), PV(c, b), PV(c, z));
  if (p.k == NAN_ || q.k == NAN_) s.cls(0); if (p.k == INF || q.k == INF) s.cls(1); if (p.k == FIN && q.k == FIN) s.cls(2);
  Dy w = fold(f, p, q);
  i64 g = c.fma_(a, b, z);
  if (p.k == FIN && q.k == FIN) { check_canon(c, g, "fma"); if (g != 0 && ref_kind(f, g) != FIN) fail("%s: fma of finite %s, %s, %s gives a special value %lld", c.name.c_str(), PV(c, a), PV(c, b), PV(c, z), (long long)g); return; }
  verdict(c, "fma", pv(c, a) + ", " + pv(c, b) + ", " + pv(c, z), w, false, g);
}
static void dots(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; int n = (int)s.draw(6); i64 a[8], b[8]; Dy acc = dy_zero(); bool allfin = true, anysp = false; u64 h = n; std::string t;
  for (int i = 0; i < n; i++) {
    bool sp = s.draw(2); a[i] = sp ? gen_sp(s, f) : gen_pat(s, f); b[i] = sp ? gen_sp(s, f) : gen_pat(s, f);
    Dy p = sp_mul(ref_decode(f, a[i]), ref_decode(f, b[i])); h = mix64(h ^ a[i]) + b[i]; t += pv(c, a[i]) + "*" + pv(c, b[i]) + " ";
    if (p.k == NAN_ || p.k == INF) { anysp = true; if (acc.k != NAN_ && acc.k != INF) acc = dy_zero(); acc = acc.k == ZERO || acc.k == FIN ? p : fold(f, acc, p); allfin = false; }
  }
  s.note(anysp, cfg_id(c), h); SHOW(s, "%s dot %s", c.name.c_str(), t.c_str());
  i64 g = c.dot(a, b, n, (int)s.draw(3));
  if (allfin) { s.cls(2); check_canon(c, g, "dot"); if (g != 0 && ref_kind(f, g) != FIN) fail("%s: dot of finite %sgives a special value %lld", c.name.c_str(), t.c_str(), (long long)g); return; }
  s.cls(acc.k == NAN_ ? 0 : 1);
  verdict(c, "dot", t, acc, false, g);
}
static void finite(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_fin(s, f), b = gen_rel(s, f, a, c.ftb);
  if (ref_kind(f, b) != FIN) { s.note(false, cfg_id(c), a, b); return; }
  s.note(true, cfg_id(c), a, b); SHOW(s, "%s finite %s and %s", c.name.c_str(), PV(c, a), PV(c, b));
  ops(s, c, a, b);
}
CHECK_MAIN("P09", "an operand (or a product under a sum) is NaN, infinite or zero; for finite operands: both are non-zero") {
  std::vector<Exh> ex;
  for (size_t i = 0; i < g_cfgs.size(); i++) { int N = g_cfgs[i]->f.N; if (N <= EXN()) ex.push_back(Exh{1ull << (2 * N), [i, N](u64 x, std::vector<u64>& o) { o = {i, 0, 0, x >> N, 0, 0, x & ((1ull << N) - 1)}; }}); }
  c.bodies.push_back(Body{"pairs", pairs, 3000, 60000, ex, {"NaN operand", "infinite operand", "two infinities", "finite over zero", "zero and zero", "finite", "WithNan", "WithInf", "WithNanInf"}});
  c.bodies.push_back(Body{"fma", fused, 3000, 60000, {}, {"NaN", "infinity", "finite"}});
  c.bodies.push_back(Body{"dot", dots, 2000, 40000, {}, {"NaN", "infinity", "finite"}});
  c.bodies.push_back(Body{"finite", finite, 3000, 60000, {}, {}});
}
