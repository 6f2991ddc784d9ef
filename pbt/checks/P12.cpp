#include "../acc.hpp"
static void verdict(Src& s, IPosit& c, Acc& a, const std::string& what, i64 g, int cbase) {
  const Fmt& f = c.f; check_canon(c, g, what.c_str());
  i64 lo = a.lo(f), hi = a.hi(f); Dy v = a.value();
  if (a.isexact()) s.cls(cbase); else s.cls(cbase + 1);
  if (v.k == FIN && !ref_exact(f, v)) s.cls(cbase + 2);
  if (g < lo || g > hi) fail("%s: %s gives %s, exact sum %s, %s %s .. %s", c.name.c_str(), what.c_str(), PV(c, g), dy_str(v).c_str(), a.isexact() ? "which fits the accumulator:" : "allowed", PV(c, lo), PV(c, hi));
}
static const i64 SPAN = 6000;
static bool fin(const Fmt& f, i64 v) { Kind k = ref_kind(f, v); return k == FIN || k == ZERO; }
static i64 mkfin(const Fmt& f, i64 v) { return fin(f, v) ? v : f.maxpos(); }
// a factor b such that a*b has about the chosen exponent
static i64 for_exp(Src& s, const Fmt& f, i64 a, i64 e) {
  Dy x = ref_decode(f, a); if (x.k != FIN) return gen_fin(s, f);
  Dy t; t.k = FIN; t.neg = s.draw(2); t.e = e - x.e; t.m = (1ull << 63) | gen_bits(s, f.N - 1) << (64 - f.N); return ref_encode(f, t);
}
static void fma_body(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = mkfin(f, gen_pat(s, f)), b, z;
  b = mkfin(f, s.draw(3) ? gen_rel(s, f, a, c.ftb) : for_exp(s, f, a, s.range(-f.N, f.N)));
  Dy x = ref_decode(f, a), y = ref_decode(f, b);
  Dy p = dy_mul(x, y);
  switch (p.k == FIN ? s.draw(5) : 0) {
    case 0: z = gen_pat(s, f); break;
    case 1: { Dy t = p; t.neg = !t.neg; z = f.sext(((u64)ref_encode(f, t) + (u64)s.range(-2, 2)) & f.mask()); break; }    // nearly cancels the product
    case 2: { Dy t; t.k = FIN; t.neg = s.draw(2); t.e = p.e + s.range(-f.N, f.N); t.m = (1ull << 63) | gen_bits(s, f.N - 1) << (64 - f.N); z = ref_encode(f, t); break; }
    case 3: { Dy t; t.k = FIN; t.neg = s.draw(2); t.e = p.e + (s.draw(2) ? c.ftb : f.N - f.es) + s.range(-4, 4); t.m = (1ull << 63) | gen_bits(s, f.N - 1) << (64 - f.N); z = ref_encode(f, t); break; }
    default: z = s.draw(2) ? a : b;
  }
  z = mkfin(f, z); Dy w = ref_decode(f, z);
  s.note(x.k == FIN && y.k == FIN && w.k == FIN, cfg_id(c), a, b, z); SHOW(s, "%s fma(%s, %s, %s)", c.name.c_str(), PV(c, a), PV(c, b), PV(c, z));
  i64 pe = x.k == FIN && y.k == FIN ? x.e + y.e : w.k == FIN ? w.e : 0, we = w.k == FIN ? w.e : pe;
  i64 g = c.fma_(a, b, z);
  if (pe - we > SPAN || we - pe > SPAN) { // the smaller term cannot matter beyond a unit of the larger one
    s.cls(4); Dy big = pe > we ? p : w; Dy lo, hi; i64 t = ref_encode(f, big), u = ref_away(f, t), d = big.neg ? t + 1 : t - 1; if (t == 1 || t == -1) d = t;
    if (g != t && g != u && g != d) fail("%s: fma(%s, %s, %s) gives %s, expected about %s", c.name.c_str(), PV(c, a), PV(c, b), PV(c, z), PV(c, g), PV(c, t));
    return;
  }
  Acc A(c.ftb, (pe < we ? pe : we) - 300); A.add(x, &y); A.add(w, nullptr);
  // would an intermediate truncation to a posit have been noticed?
  if (p.k == FIN && w.k == FIN) { Dy q = ref_decode(f, ref_encode(f, p)); i64 n = ref_encode(f, dy_add(q, w)); if (n < A.lo(f) || n > A.hi(f)) s.cls(3); }
  verdict(s, c, A, strf("fma(%s, %s, %s)", PV(c, a), PV(c, b), PV(c, z)), g, 0);
  if (x.k == ZERO || y.k == ZERO) expect(c, "fma with a zero factor", g, z);
  if (w.k == ZERO) expect(c, "fma with a zero addend", g, ref_encode(f, p));
}
static void dot_n(Src& s, int maxn) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; int n = (int)s.draw(maxn + 1), how = (int)s.draw(3);
  i64 a[64], b[64]; u64 h = n; std::string t; i64 mn = 1ll << 62, mx = -(1ll << 62), E = 0; bool have = false; int nz = 0;
  for (int i = 0; i < n; i++) {
    u64 mode = s.draw(8);
    if (i && mode == 1) { int j = (int)s.draw(i); a[i] = a[j]; b[i] = -b[j]; }                       // cancels an earlier term
    else if (i && mode == 2) { int j = (int)s.draw(i); a[i] = a[j]; b[i] = mkfin(f, f.sext((0 - (u64)b[j] + (u64)s.range(-1, 1)) & f.mask())); }
    else if (have && mode >= 3) { a[i] = mkfin(f, gen_pat(s, f)); b[i] = for_exp(s, f, a[i], E + (mode == 3 ? s.range(-4, 4) : mode == 4 ? (s.draw(2) ? 1 : -1) * (c.ftb + s.range(-4, 4)) : s.range(-f.N, f.N))); }
    else { a[i] = gen_fin(s, f); b[i] = for_exp(s, f, a[i], s.range(-f.N, f.N)); }
    if (s.draw(40) == 39) b[i] = 0;
    Dy x = ref_decode(f, a[i]), y = ref_decode(f, b[i]);
    if (x.k == FIN && y.k == FIN) { i64 e = x.e + y.e; if (e < mn) mn = e; if (e > mx) mx = e; E = e; have = true; nz++; }
    h = mix64(h ^ a[i]) + b[i]; if (s.want) t += pv(c, a[i]) + "*" + pv(c, b[i]) + " ";
  }
  s.note(nz >= 2, cfg_id(c), h, how); SHOW(s, "%s dot of %s", c.name.c_str(), t.c_str());
  i64 g = c.dot(a, b, n, how);
  if (n == 0 || nz == 0) { expect(c, "dot product without non-zero terms", g, 0); return; }
  if (mx - mn > SPAN) { s.cls(3); return; }
  Acc A(c.ftb, mn - 300);
  for (int i = 0; i < n; i++) { Dy x = ref_decode(f, a[i]), y = ref_decode(f, b[i]); A.add(x, &y); }
  if (t.empty()) for (int i = 0; i < n; i++) t += pv(c, a[i]) + "*" + pv(c, b[i]) + " ";
  verdict(s, c, A, "dot of " + t, g, 0);
  if (nz == 1 && n == 1) expect(c, "dot product of length one", g, c.mul(a[0], b[0]));
  if (g != c.dot(a, b, n, (how + 1) % 3)) fail("%s: dot of %s depends on the kind of iterator", c.name.c_str(), t.c_str());
}
// hundreds of terms: a short list of terms over and over, so that the case stays small and mostly exact
static void dot_periodic(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; int k = 1 + (int)s.draw(7), how = (int)s.draw(3), n = s.draw(4) ? (int)s.draw(80) : (int)s.draw(1400);
  std::vector<i64> pa, pb, a, b; bool ints = s.draw(4) != 3; u64 h = n; std::string t; i64 mn = 1ll << 62, mx = -(1ll << 62); int nz = 0;
  for (int i = 0; i < k; i++) {
    i64 x = ints ? ref_encode(f, dy_from_int(s.range(-3, 3))) : gen_fin(s, f), y = ints ? ref_encode(f, dy_from_int(s.range(-3, 3))) : for_exp(s, f, x, s.range(-4, 4));
    pa.push_back(x); pb.push_back(y); Dy p = ref_decode(f, x), q = ref_decode(f, y);
    if (p.k == FIN && q.k == FIN) { i64 e = p.e + q.e; if (e < mn) mn = e; if (e > mx) mx = e; if (i < n) nz += 1 + (n - 1 - i) / k; }
    h = mix64(h ^ x) + y; if (s.want) t += pv(c, x) + "*" + pv(c, y) + " ";
  }
  for (int i = 0; i < n; i++) { a.push_back(pa[i % k]); b.push_back(pb[i % k]); }
  s.note(nz >= 2, cfg_id(c), h, how); SHOW(s, "%s dot of %d terms, in turn %s", c.name.c_str(), n, t.c_str());
  i64 g = c.dot(a.data(), b.data(), n, how);
  if (g != c.dot(a.data(), b.data(), n, (how + 1) % 3)) fail("%s: dot of %d terms, in turn %s, depends on the kind of iterator", c.name.c_str(), n, t.c_str());
  if (n == 0 || nz == 0) { expect(c, "dot product without non-zero terms", g, 0); return; }
  if (mx - mn > SPAN) { s.cls(3); return; }
  Acc A(c.ftb, mn - 300);
  for (int i = 0; i < n; i++) { Dy x = ref_decode(f, a[i]), y = ref_decode(f, b[i]); A.add(x, &y); }
  if (t.empty()) for (int i = 0; i < k; i++) t += pv(c, pa[i]) + "*" + pv(c, pb[i]) + " ";
  verdict(s, c, A, strf("dot of %d terms, in turn %s", n, t.c_str()), g, 0);
}
static void dot_small(Src& s) { dot_n(s, 4); }
static void dot_long(Src& s) { dot_n(s, 24); }
CHECK_MAIN("P12", "fma: all three operands are finite and non-zero; dot: at least two terms are finite and non-zero") {
  c.bodies.push_back(Body{"fma", fma_body, 2000, 60000, {}, {"exact in the accumulator", "within the bound", "not a posit", "an intermediate posit would differ", "terms very far apart"}});
  c.bodies.push_back(Body{"dot-small", dot_small, 1000, 30000, {}, {"exact in the accumulator", "within the bound", "not a posit", "terms very far apart"}});
  c.bodies.push_back(Body{"dot-periodic", dot_periodic, 40, 1200, {}, {"exact in the accumulator", "within the bound", "not a posit", "terms very far apart"}});
  c.bodies.push_back(Body{"dot-long", dot_long, 250, 8000, {}, {"exact in the accumulator", "within the bound", "not a posit", "terms very far apart"}});
}
