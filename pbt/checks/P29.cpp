#include "../acc.hpp"
static int EXN() { return g_thorough ? 8 : 6; }
static const i64 SPAN = 6000;
static i64 gen_any(Src& s, const Fmt& f) { return s.draw(12) == 11 ? (s.draw(2) ? f.pnan() : f.pinf(s.draw(2))) : gen_pat(s, f); }
static i64 product(const Fmt& f, i64 a, i64 b) { return ref_encode(f, sp_mul(ref_decode(f, a), ref_decode(f, b))); }
enum { NCTX = 27 };
static const char* ctx_name[NCTX] = {"P x = a*b", "P(a*b)", "assignment of a*b", "a*b as argument", "return a*b", "a*b in an array", "push_back(a*b)", "stored product used twice", "static_cast<P>(a*b)", "(float)(a*b)", "(double)(a*b)", "float x = a*b", "int x = a*b", "Unpacked x = a*b", "a*b*c", "c*(a*b)", "a*b/c", "c/(a*b)", "a*b-c", "c-a*b", "x *= a*b", "x /= a*b", "comparisons of a*b with c", "inv(a*b)", "cond ? a*b : c", "fma(a*b,c,d)", "dot over a*b"};
static void plain(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_pat(s, f), b = gen_rel(s, f, a, c.ftb); i64 q = product(f, a, b);
  i64 z = s.draw(3) ? gen_any(s, f) : f.sext(((u64)q + (u64)s.range(-1, 1)) & f.mask()), w = gen_any(s, f);
  if (s.draw(16) == 15) a = gen_any(s, f), q = product(f, a, b);
  s.covered = f.N <= EXN() && z == 0 && w == 0;
  Dy x = ref_decode(f, a), y = ref_decode(f, b); s.note(x.k == FIN && y.k == FIN, cfg_id(c), a, b, mix64(z) ^ w);
  SHOW(s, "%s a=%s b=%s c=%s d=%s", c.name.c_str(), PV(c, a), PV(c, b), PV(c, z), PV(c, w));
  if (x.k != FIN || y.k != FIN) s.cls(0); else if (!ref_exact(f, dy_mul(x, y))) s.cls(1); else s.cls(2);
  for (int h = 0; h < NCTX; h++) {
    if (h == 12) { Dy qd = ref_decode(f, q); if (qd.k == NAN_ || qd.k == INF || (qd.k == FIN && qd.e >= 31)) continue; }
    i64 g = c.pm(h, a, b, z, w), e = c.pmw(h, q, z, w);
    if (g != e) fail("%s: %s with a=%s b=%s c=%s d=%s gives %lld (0x%llx), with the product %s computed first %lld (0x%llx)", c.name.c_str(), ctx_name[h], PV(c, a), PV(c, b), PV(c, z), PV(c, w), (long long)g, (unsigned long long)g, PV(c, q), (long long)e, (unsigned long long)e);
  }
}
static i64 for_exp(Src& s, const Fmt& f, i64 a, i64 e) {
  Dy x = ref_decode(f, a); if (x.k != FIN) return gen_fin(s, f);
  Dy t; t.k = FIN; t.neg = s.draw(2); t.e = e - x.e; t.m = (1ull << 63) | gen_bits(s, f.N - 1) << (64 - f.N); return ref_encode(f, t);
}
static void verdict(Src& s, IPosit& c, Acc& A, const std::string& what, i64 g) {
  const Fmt& f = c.f; check_canon(c, g, what.c_str()); i64 lo = A.lo(f), hi = A.hi(f); s.cls(A.isexact() ? 0 : 1);
  if (g < lo || g > hi) fail("%s: %s gives %s, exact value %s, %s %s .. %s", c.name.c_str(), what.c_str(), PV(c, g), dy_str(A.value()).c_str(), A.isexact() ? "which fits the accumulator:" : "allowed", PV(c, lo), PV(c, hi));
}
// special operands: what the decoded result has to be
static void special(IPosit& c, const std::string& what, Dy p, Dy q, i64 g) {
  const Fmt& f = c.f; check_canon(c, g, what.c_str());
  Dy w = sp_add(p, q, f.spec == WITHINF); if (g != ref_encode(f, w)) fail("%s: %s gives %s, expected %s", c.name.c_str(), what.c_str(), PV(c, g), PV(c, ref_encode(f, w)));
}
static bool big(const Dy& d) { return d.k == NAN_ || d.k == INF; }
static void fused(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 a = gen_any(s, f), b = s.draw(3) ? gen_rel(s, f, a, c.ftb) : for_exp(s, f, a, s.range(-f.N, f.N));
  Dy x = ref_decode(f, a), y = ref_decode(f, b), p = sp_mul(x, y); p.sticky = false; i64 z, w;
  switch (p.k == FIN ? s.draw(5) : 0) {
    case 0: z = gen_any(s, f); break;
    case 1: { Dy t = p; t.neg = !t.neg; z = f.sext(((u64)ref_encode(f, t) + (u64)s.range(-2, 2)) & f.mask()); break; }
    case 2: { Dy t; t.k = FIN; t.neg = s.draw(2); t.e = p.e + s.range(-f.N, f.N); t.m = (1ull << 63) | gen_bits(s, f.N - 1) << (64 - f.N); z = ref_encode(f, t); break; }
    case 3: z = s.draw(2) ? a : b; break;
    default: z = f.sext((0 - (u64)a) & f.mask());
  }
  Dy t = ref_decode(f, z);
  switch (p.k == FIN && t.k == FIN ? s.draw(4) : 0) {
    case 0: w = gen_any(s, f); break;
    case 1: w = for_exp(s, f, z, p.e + s.range(-3, 3)); break;
    case 2: w = s.draw(2) ? a : b; break;
    default: w = f.sext(((u64)(s.draw(2) ? b : -b) + (u64)s.range(-1, 1)) & f.mask());
  }
  Dy v = ref_decode(f, w), q = sp_mul(t, v); q.sticky = false;
  s.note(p.k == FIN && t.k == FIN && v.k == FIN, cfg_id(c), a, b, mix64(z) ^ w);
  SHOW(s, "%s a=%s b=%s c=%s d=%s", c.name.c_str(), PV(c, a), PV(c, b), PV(c, z), PV(c, w));
  std::string ab = "a*b"; std::string ops = strf(" (a=%s b=%s c=%s d=%s)", PV(c, a), PV(c, b), PV(c, z), PV(c, w));
  // product and posit
  i64 g0 = c.pmf(0, a, b, z, 0), g1 = c.pmf(1, a, b, z, 0), fm = c.pmf(4, a, b, z, 0), g5 = c.pmf(5, a, b, z, 0);
  if (g0 != fm || g1 != fm) fail("%s: a*b+c gives %s, c+a*b gives %s, fma(a,b,c) gives %s%s", c.name.c_str(), PV(c, g0), PV(c, g1), PV(c, fm), ops.c_str());
  if (big(p) || big(t)) { s.cls(3); special(c, "a*b+c" + ops, p, t, g0); }
  else {
    i64 pe = p.k == FIN ? x.e + y.e : t.k == FIN ? t.e : 0, we = t.k == FIN ? t.e : pe;
    if (pe - we <= SPAN && we - pe <= SPAN) {
      Acc A(c.ftb, (pe < we ? pe : we) - 300); A.add(x, &y); A.add(t, nullptr); verdict(s, c, A, "a*b+c" + ops, g0);
      if (p.k == FIN && t.k == FIN) { i64 n = ref_encode(f, dy_add(ref_decode(f, product(f, a, b)), t)); if (n < A.lo(f) || n > A.hi(f)) s.cls(2); }
    }
  }
  { i64 pl = c.pmw(27, product(f, a, b), z, 0); if (g5 != fm && g5 != pl) fail("%s: c += a*b gives %s, neither the fused %s nor the plain %s%s", c.name.c_str(), PV(c, g5), PV(c, fm), PV(c, pl), ops.c_str()); }
  // two products
  i64 s2 = c.pmf(2, a, b, z, w), d2 = c.pmf(3, a, b, z, w);
  if (big(p) || big(q)) {
    s.cls(3); special(c, "a*b+c*d" + ops, p, q, s2);
    Dy n = dy_neg(q); special(c, "a*b-c*d" + ops, p, n, d2);
  } else {
    i64 pe = p.k == FIN ? x.e + y.e : q.k == FIN ? t.e + v.e : 0, we = q.k == FIN ? t.e + v.e : pe;
    if (pe - we <= SPAN && we - pe <= SPAN) {
      i64 base = (pe < we ? pe : we) - 300;
      { Acc A(c.ftb, base); A.add(x, &y); A.add(t, &v); verdict(s, c, A, "a*b+c*d" + ops, s2); }
      { Acc A(c.ftb, base); Dy n = dy_neg(t); A.add(x, &y); A.add(n, &v); verdict(s, c, A, "a*b-c*d" + ops, d2); 
        if (p.k == FIN && q.k == FIN) { i64 m = ref_encode(f, dy_sub(ref_decode(f, product(f, a, b)), ref_decode(f, product(f, z, w)))); if (m < A.lo(f) || m > A.hi(f)) s.cls(2); } }
    } else s.cls(4);
  }
  // a longer sum: the third product is fused with the posit of the first two
  i64 l = c.pmf(6, a, b, z, w), e = c.pmf(4, a, w, s2, 0);
  if (l != e) fail("%s: a*b+c*d+a*d gives %s, fma(a,d,a*b+c*d) gives %s%s", c.name.c_str(), PV(c, l), PV(c, e), ops.c_str());
}
CHECK_MAIN("P29", "the operands of the product (fused: all four operands) are finite and non-zero") {
  c.bodies.push_back(Body{"plain", plain, 500, 16000, exh_pairs(EXN()), {"special or zero operand", "product is truncated", "product is exact"}});
  c.bodies.push_back(Body{"fused", fused, 1000, 30000, {}, {"exact in the accumulator", "within the bound", "intermediate posits would differ", "special value", "terms very far apart"}});
}
