#include "../tab.hpp"
#include "../gen.hpp"
std::vector<ITab*> g_tabs; std::vector<IPosit*> g_cfgs;
#define R(c) void reg_##c();
TAB_REG
#undef R
void register_cfgs() {
#define R(c) reg_##c();
  TAB_REG
#undef R
}
static ITab& pick(Src& s) { return *g_tabs[s.draw(g_tabs.size())]; }
static std::string S(const ITab& t, i64 v) { return strf("%lld=", (long long)v) + dy_str(ref_decode(t.f, v)); }
static void expect(const ITab& t, const char* op, const std::string& args, i64 g, i64 w) { if (g != w) fail("%s: %s of %s gives %lld, expected %s", t.name.c_str(), op, args.c_str(), (long long)g, S(t, w).c_str()); }
static void sum(const ITab& t, const char* op, const std::string& args, const Dy& a, const Dy& b, i64 g) {
  Dy e = sp_add(a, b, t.f.spec == WITHINF);
  bool loose = a.k == FIN && b.k == FIN && a.neg != b.neg;                 // unlike signs: either bracket
  if (loose ? !ref_faithful(t.f, e, g) : g != ref_encode(t.f, e)) fail("%s: %s of %s gives %lld, expected %s", t.name.c_str(), op, args.c_str(), (long long)g, S(t, ref_encode(t.f, e)).c_str());
}
static i64 gen2(Src& s, ITab& t, i64 a) { return gen_rel(s, t.f, a, t.ftb); }
static void pairs(Src& s) {
  ITab& t = pick(s); const Fmt& f = t.f; i64 x = gen_pat(s, f), y = gen2(s, t, x); Dy a = ref_decode(f, x), b = ref_decode(f, y); std::string A; s.covered = true; s.note(a.k == FIN && b.k == FIN, f.N * 8 + f.es, x, y); SHOW(s, "%s %s, %s", t.name.c_str(), S(t, x).c_str(), S(t, y).c_str());
  static const char* N[] = {"sum", "difference", "product", "quotient", "+=", "*=", "min", "max"}; i64 g[8]; bool bad = false; (void)bad;
  for (int i = 0; i < 8; i++) g[i] = t.bin(i, x, y);
  struct L { ITab& t; i64 x, y; std::string operator()() { return S(t, x) + ", " + S(t, y); } } arg{t, x, y};
  for (int i = 0; i < 8; i++) if (!f.canonical(g[i])) fail("%s: %s of %s gives %lld, not a pattern of the format", t.name.c_str(), N[i], arg().c_str(), (long long)g[i]);
  i64 wm = ref_encode(f, sp_mul(a, b)), wd = ref_encode(f, sp_div(a, b));
  if (g[2] != wm || g[5] != wm) expect(t, "product", arg(), g[2] != wm ? g[2] : g[5], wm);
  if (g[3] != wd) expect(t, "quotient", arg(), g[3], wd);
  { Dy e = sp_add(a, b, f.spec == WITHINF), d = sp_add(a, dy_neg(b), f.spec == WITHINF); i64 we = ref_encode(f, e), wf = ref_encode(f, d);
    if (g[0] != we || g[4] != g[0]) { sum(t, "sum", arg(), a, b, g[0]); if (g[4] != g[0]) expect(t, "+=", arg(), g[4], g[0]); }
    if (g[1] != wf) sum(t, "difference", arg(), a, dy_neg(b), g[1]);
    if (t.f.N == 8 && t.f.es == 0) { if (g[0] != we) expect(t, "sum", arg(), g[0], we); if (g[1] != wf) expect(t, "difference", arg(), g[1], wf); }
    if (e.k == FIN && !ref_exact(f, e)) s.cls(0); }
  if (g[6] != std::min(x, y)) expect(t, "min", arg(), g[6], std::min(x, y)); if (g[7] != std::max(x, y)) expect(t, "max", arg(), g[7], std::max(x, y));
  int w = (x == y) | (x != y) << 1 | (x < y) << 2 | (x <= y) << 3 | (x > y) << 4 | (x >= y) << 5; if (t.cmp(x, y) != w) fail("%s: comparisons of %s are %#x, expected %#x", t.name.c_str(), arg().c_str(), t.cmp(x, y), w);
  if (a.k == FIN && b.k == FIN) { if (wm == f.maxpos() || wm == -f.maxpos() || wm == 1 || wm == -1) s.cls(1); }
}
// 2^x truncated; x exact
static i64 ref_exp2(const Fmt& f, const Dy& a) {
  if (a.k == NAN_) return f.pnan(); if (a.k == ZERO) return ref_encode(f, dy_from_int(1));
  if (a.k == INF) return !a.neg ? f.pinf(false) : 0;
  if (a.e > 12) return a.neg ? 1 : f.maxpos();
  long double x = ldexpl((long double)a.m, (int)a.e - 63); if (a.neg) x = -x; long double fl = floorl(x), fr = x - fl; if (fl > 4000) return f.maxpos(); if (fl < -4000) return 1;
  long double p = fr == 0 ? 1 : exp2l(fr); if (fr != 0 && p <= 1) p = 1; Dy d = dy_make(false, (u64)ldexpl(p, 63), (i64)fl - 63); d.sticky = fr != 0; return ref_encode(f, d);
}
static void unary(Src& s) {
  ITab& t = pick(s); const Fmt& f = t.f; i64 x = gen_pat(s, f); Dy a = ref_decode(f, x), two = dy_from_int(2); std::string A = S(t, x); s.covered = true; s.note(a.k == FIN, f.N * 8 + f.es, x); SHOW(s, "%s %s", t.name.c_str(), A.c_str());
  Dy one = dy_from_int(1); i64 top = f.top();
  i64 w[] = {ref_encode(f, sp_div(one, a)), ref_encode(f, a.k == FIN ? dy_scale(a, -1) : a), ref_encode(f, a.k == FIN ? dy_scale(a, 1) : a), ref_exp2(f, a), ref_encode(f, sp_mul(a, a)), x == top ? x : -x, x == top || x > 0 ? x : -x};
  static const char* N[] = {"inv", "half", "twice", "exp2", "square", "negation", "abs"};
  for (int i = 0; i < 6; i++) for (int k = 0; k < 2; k++) if (i == 3 && a.k == INF && f.spec == WITHINF) { i64 g = t.un(i + 6 * k, x); if (g != 0 && g != x) expect(t, N[i], A, g, x); }   // an infinity without sign: either limit
    else expect(t, N[i], A, t.un(i + 6 * k, x), w[i]);
  expect(t, "abs", A, t.un(12, x), w[6]);
  for (int k = 0; k < 4; k++) expect(t, "construction from the generic posit", A, t.from_p(x, k), x);
  for (int k = 0; k < 4; k++) expect(t, "conversion to the generic posit", A, t.to_p(x, k), x);
  if (t.uu(x) != ((u64)x & f.mask())) fail("%s: uu() of %s is %llu", t.name.c_str(), A.c_str(), (unsigned long long)t.uu(x));
  if (t.print(x) != strf("posit(%llu)", (unsigned long long)((u64)x & f.mask()))) fail("%s: %s prints as %s", t.name.c_str(), A.c_str(), t.print(x).c_str());
  int p = (x < 0) | (a.k == NAN_) << 1 | (a.k == INF) << 2; int q = t.preds(x); if ((q & 7) != p) fail("%s: tests (negative, NaN, infinity) of %s are %#x, expected %#x", t.name.c_str(), A.c_str(), q & 7, p);
  if ((q >> 4 & 1) != (x < 0)) fail("%s: the function is_negative of %s gives %d", t.name.c_str(), A.c_str(), q >> 4 & 1);
  if (!(q >> 5 & 1)) fail("%s: the fields of %s are not those of the generic posit", t.name.c_str(), A.c_str());
  if (a.k == FIN && !a.neg && (q >> 3 & 1) != (a.e < 0)) fail("%s: the test of a negative exponent of %s gives %d", t.name.c_str(), A.c_str(), q >> 3 & 1);
  float tf = t.to_f(x); double td = t.to_d(x);
  if (a.k == NAN_) { if (tf == tf || td == td) fail("%s: NaN converts to a number", t.name.c_str()); if (t.from_f(tf) != x || t.from_d(td) != x) fail("%s: NaN lost through native", t.name.c_str()); }
  else { Dy m = a; if (a.k == INF && f.spec == WITHINF) m.neg = tf < 0; if (!dy_same(dy_from_double(tf), m) || !dy_same(dy_from_double(td), m)) fail("%s: %s converts to %.9g, %.17g", t.name.c_str(), A.c_str(), tf, td);
    if (t.from_f(tf) != x || t.from_d(td) != x) fail("%s: %s changes through native", t.name.c_str(), A.c_str());
    if (a.k != INF) { i64 w = a.k == ZERO || a.e < 0 ? 0 : a.e >= 31 ? (a.neg ? INT32_MIN : INT32_MAX) : (a.neg ? -1 : 1) * (i64)(a.m >> (63 - a.e)); if (t.to_i(x) != w) fail("%s: %s to int gives %d, expected %lld", t.name.c_str(), A.c_str(), t.to_i(x), (long long)w); } }
}
static void from(Src& s) {
  ITab& t = pick(s); const Fmt& f = t.f;
  switch (s.draw(3)) {
    case 0: { uint32_t b = gen_fbits(s, f); Dy d = fl_decode(F_SINGLE, b); s.note(d.k == FIN, f.N, b, 1); SHOW(s, "%s of float %.9g", t.name.c_str(), bits_f(b)); expect(t, "conversion", strf("float %.9g", bits_f(b)), t.from_f(bits_f(b)), ref_encode(f, d)); break; }
    case 1: { u64 b = gen_dbits(s, f); Dy d = fl_decode(F_DOUBLE, b); s.note(d.k == FIN, f.N, b, 2); SHOW(s, "%s of double %.17g", t.name.c_str(), bits_d(b)); expect(t, "conversion", strf("double %.17g", bits_d(b)), t.from_d(bits_d(b)), ref_encode(f, d)); break; }
    default: { int i = gen_int(s); s.note(i != 0, f.N, i, 3); SHOW(s, "%s of int %d", t.name.c_str(), i); expect(t, "conversion", strf("int %d", i), t.from_i(i), ref_encode(f, dy_from_int(i))); }
  }
}
static void consts(Src& s) {
  ITab& t = pick(s); const Fmt& f = t.f; int i = (int)s.draw(14); s.covered = true; s.note(true, f.N, i); SHOW(s, "%s constant %d", t.name.c_str(), i); i64 g;
  i64 one = ref_encode(f, dy_from_int(1)), eps = ref_encode(f, dy_sub(ref_decode(f, one + 1), dy_from_int(1)));
  i64 w[] = {f.maxpos(), 1, one, one + 1, ref_encode(f, dy_make(false, 1, -1)), f.pinf(false), f.pinf(true), f.top(), f.maxpos(), 1, eps, 0, 0, ref_encode(f, dy_from_int(2))};
  if (t.cst(i, g) && g != w[i]) fail("%s: constant %d is %lld, expected %s", t.name.c_str(), i, (long long)g, S(t, w[i]).c_str());
}
CHECK_MAIN(TAB_PROP, "all operands are finite and non-zero") {
  std::vector<Exh> e2, e1;
  for (size_t i = 0; i < g_tabs.size(); i++) { int n = g_tabs[i]->f.N; e2.push_back(Exh{1ull << (2 * n), [i, n](u64 x, std::vector<u64>& o) { o = {i, 0, x >> n, 0, 0, x & ((1ull << n) - 1)}; }}); e1.push_back(Exh{1ull << n, [i](u64 x, std::vector<u64>& o) { o = {i, 0, x}; }}); }
  c.bodies.push_back(Body{"pairs", pairs, 0, 0, e2, {"sum truncated", "product saturated"}});
  c.bodies.push_back(Body{"unary", unary, 0, 0, e1, {}});
  c.bodies.push_back(Body{"from-native", from, 1500, 20000, {}, {}});
  c.bodies.push_back(Body{"constants", consts, 0, 0, {Exh{g_tabs.size() * 14, [](u64 i, std::vector<u64>& o) { o = {i / 14, i % 14}; }}}, {}});
}
