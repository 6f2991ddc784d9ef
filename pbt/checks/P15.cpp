#include "../unp.hpp"
#include "../acc.hpp"
void register_cfgs() { register_unps(); }
std::vector<IPosit*> g_cfgs;
static std::string fs(const Full& x) { return x.type == ZERO ? "0" : x.type == NAN_ ? "NaN" : x.type == INF ? (x.neg ? "-Inf" : "+Inf") : strf("%c1.%016llxp%lld", x.neg ? '-' : '+', (unsigned long long)x.frac, (long long)x.exp); }
static i64 emax(const IUnp& u) { return u.EB >= 64 ? (1ll << 40) : (1ll << (u.EB - 1)) / 2 - 6; }   // keeps sums of two exponents inside ET
static Full gen(Src& s, const IUnp& u, const Full* rel) {
  Full x{FIN, false, 0, 0}; u64 m = s.draw(12);
  if (m == 11) { switch (s.draw(4)) { case 0: x.type = ZERO; break; case 1: x.type = NAN_; x.neg = s.draw(2); break; default: x.type = INF; x.neg = s.draw(2); } return x; }
  x.neg = s.draw(2); i64 M = emax(u);
  switch (rel && rel->type == FIN ? s.draw(6) : s.draw(3)) {
    case 0: x.exp = s.range(-3, 3); break;
    case 1: x.exp = s.range(-(M < 200 ? M : 200), M < 200 ? M : 200); break;
    case 2: x.exp = s.range(-M, M); break;
    case 3: x.exp = rel->exp + s.range(-3, 3); break;
    case 4: x.exp = rel->exp + (s.draw(2) ? 1 : -1) * (i64)((1 + s.draw(3)) * u.W + s.range(-3, 3)); break;
    default: x.exp = rel->exp;
  }
  if (x.exp > M) x.exp = M; if (x.exp < -M) x.exp = -M;
  if (rel && rel->type == FIN && s.draw(5) == 4) { x.frac = rel->frac + ((u64)s.range(-1, 1) << (64 - u.W)); } 
  else x.frac = gen_bits(s, u.W) << (64 - u.W);
  if (s.draw(3)) x.frac &= ~(3ull << (64 - u.W));     // leave room for the alignment shifts
  return x;
}
// (2^64 + frac) as mpz
static void sig(mpz_t r, const Full& x) { z_set128(r, ((u128)1 << 64) | x.frac); }
static bool same(const Full& a, const Full& b) { return a.type == b.type && (a.type == NAN_ || a.type == ZERO || (a.neg == b.neg && (a.type == INF || (a.exp == b.exp && a.frac == b.frac)))); }
// |got - num/den * 2^e| <= bound where bound = 2^be; le: got must not exceed in magnitude; exact: must be equal.  num, den positive
static void near(const IUnp& u, const char* op, const Full& a, const Full& b, const mpz_t num, const mpz_t den, i64 e, bool neg, const Full& g, i64 be, bool le, bool exact) {
  if (g.type != FIN && !(g.type == ZERO)) fail("%s: %s %s %s gives %s", u.name.c_str(), fs(a).c_str(), op, fs(b).c_str(), fs(g).c_str());
  Z G, D, t; int sg = 0;
  if (g.type == FIN) { sig(G.z, g); sg = g.neg ? -1 : 1; }
  // compare G*2^(g.exp-64)*den with num*2^e ; scale all by 2^-base
  i64 ge = g.type == FIN ? g.exp - 64 : e, base = std::min(std::min(ge, e), be);
  if (ge - base > 5000 || e - base > 5000 || be - base > 5000) fail("%s: %s %s %s gives %s: exponent far off", u.name.c_str(), fs(a).c_str(), op, fs(b).c_str(), fs(g).c_str());
  mpz_mul(G.z, G.z, den); mpz_mul_2exp(G.z, G.z, ge - base); if (sg < 0) mpz_neg(G.z, G.z);
  mpz_mul_2exp(t.z, num, e - base); if (neg) mpz_neg(t.z, t.z);
  bool over = mpz_cmpabs(G.z, t.z) > 0, opp = mpz_sgn(G.z) * mpz_sgn(t.z) < 0;
  mpz_sub(D.z, G.z, t.z);
  Z bd; mpz_set(bd.z, den); mpz_mul_2exp(bd.z, bd.z, be - base);
  if (exact ? mpz_sgn(D.z) != 0 : mpz_cmpabs(D.z, bd.z) >= 0 || (le && (over || opp)))
    fail("%s: %s %s %s gives %s, %s", u.name.c_str(), fs(a).c_str(), op, fs(b).c_str(), fs(g).c_str(), exact ? "not the exact result, which fits" : over && le ? "larger in magnitude than the exact result" : "off by more than the precision");
}
static Dy kd(const Full& x) { Dy d; d.k = (Kind)x.type; d.neg = x.neg; d.m = 1ull << 63; d.e = 0; return d; }
static void special(const IUnp& u, const char* op, const Full& a, const Full& b, const Dy& w, const Full& g) {
  bool ok = g.type == w.k && (w.k != INF || g.neg == w.neg);
  if (!ok) fail("%s: %s %s %s gives %s, expected %s", u.name.c_str(), fs(a).c_str(), op, fs(b).c_str(), fs(g).c_str(), dy_str(w).c_str());
}
static void sum(const IUnp& u, const char* op, const Full& a, const Full& b0, bool minus, const Full& g) {
  Full b = b0; if (minus && (b.type == FIN || b.type == INF)) b.neg = !b.neg;
  if (a.type != FIN || b.type != FIN) {
    if (a.type == FIN && b.type == ZERO) { if (!same(g, a)) fail("%s: %s %s 0 gives %s", u.name.c_str(), fs(a).c_str(), op, fs(g).c_str()); return; }
    if (b.type == FIN && a.type == ZERO) { if (!same(g, b)) fail("%s: 0 %s %s gives %s", u.name.c_str(), op, fs(b0).c_str(), fs(g).c_str()); return; }
    special(u, op, a, b0, sp_add(kd(a), kd(b), false), g); return;
  }
  i64 d = a.exp - b.exp; const Full &hi = d >= 0 ? a : b, &lo = d >= 0 ? b : a; if (d < 0) d = -d;
  i64 unit = hi.exp - (u.W - 2); bool like = a.neg == b.neg;
  if (d > 3 * u.W + 70) { // the small one cannot matter
    Z n, one; sig(n.z, hi); mpz_set_ui(one.z, 1); Full g2 = g; near(u, op, a, b0, n.z, one.z, hi.exp - 64, hi.neg, g2, unit + 1, false, false); return; }
  Z x, y, one; sig(x.z, hi); sig(y.z, lo); mpz_set_ui(one.z, 1); i64 base = lo.exp - 64;
  bool exact = true; { size_t need = unit - base > 0 ? unit - base : 0; mpz_mul_2exp(x.z, x.z, d); if (!(mpz_divisible_2exp_p(x.z, need) && mpz_divisible_2exp_p(y.z, need))) exact = false; }
  if (hi.neg) mpz_neg(x.z, x.z); if (lo.neg) mpz_neg(y.z, y.z); mpz_add(x.z, x.z, y.z); bool neg = mpz_sgn(x.z) < 0; mpz_abs(x.z, x.z);
  if (exact && mpz_sgn(x.z) == 0 && g.type != ZERO) fail("%s: %s %s %s gives %s instead of zero", u.name.c_str(), fs(a).c_str(), op, fs(b0).c_str(), fs(g).c_str());
  near(u, op, a, b0, x.z, one.z, base, neg, g, like ? unit + 1 : unit + 1, like, exact);
}
static void body(Src& s) {
  IUnp& u = *g_unps[s.draw(g_unps.size())]; Full a = gen(s, u, nullptr), b = gen(s, u, &a); u64 low = 1ull << (64 - u.W);
  bool reg = a.type == FIN && b.type == FIN; s.note(reg, mix64(u.W * 100 + u.EB), mix64(a.frac ^ mix64(a.exp * 2 + a.neg)), mix64(b.frac ^ mix64(b.exp * 2 + b.neg)), a.type * 4 + b.type);
  SHOW(s, "%s %s and %s", u.name.c_str(), fs(a).c_str(), fs(b).c_str()); if (!reg) s.cls(0);
  i64 d = a.exp - b.exp; if (d < 0) d = -d; if (reg && d >= u.W) s.cls(1); if (reg && d == 0 && a.neg != b.neg) s.cls(2);
  sum(u, "+", a, b, false, u.add(a, b)); sum(u, "+", b, a, false, u.add(b, a)); sum(u, "-", a, b, true, u.sub(a, b));
  if (!same(u.iadd(a, b, 0), u.add(a, b))) fail("%s: %s += %s differs from +", u.name.c_str(), fs(a).c_str(), fs(b).c_str());
  if (!same(u.iadd(a, b, 1), u.sub(a, b))) fail("%s: %s -= %s differs from -", u.name.c_str(), fs(a).c_str(), fs(b).c_str());
  { Full x = u.add(a, b), y = u.add(b, a); if (!same(x, y)) fail("%s: %s + %s does not commute: %s and %s", u.name.c_str(), fs(a).c_str(), fs(b).c_str(), fs(x).c_str(), fs(y).c_str()); }
  { Full x = u.mul(a, b), y = u.mul(b, a); if (!same(x, y)) fail("%s: %s * %s does not commute: %s and %s", u.name.c_str(), fs(a).c_str(), fs(b).c_str(), fs(x).c_str(), fs(y).c_str()); }
  Full p = u.mul(a, b), q = u.div(a, b), iv = u.inv(b); bool fita = !(a.frac & low), fitb = !(b.frac & low);
  Z one; mpz_set_ui(one.z, 1);
  if (reg) {
    Z x, y, z; sig(x.z, a); sig(y.z, b); mpz_mul(z.z, x.z, y.z); size_t n = mpz_sizeinbase(z.z, 2), tz = mpz_scan1(z.z, 0); bool exact = fita && fitb && (int)(n - tz) <= u.W - 1; if (exact) s.cls(3);
    i64 E = a.exp + b.exp + (n == 130 ? 1 : 0); near(u, "*", a, b, z.z, one.z, a.exp + b.exp - 128, a.neg != b.neg, p, E - (u.W - 3), true, exact);
    // quotient: exact when x/y has few bits
    Z r, den; bool ex = false; if (fita && fitb) { mpz_mul_2exp(r.z, x.z, 200); if (mpz_divisible_p(r.z, y.z)) { mpz_divexact(r.z, r.z, y.z); ex = (int)(mpz_sizeinbase(r.z, 2) - mpz_scan1(r.z, 0)) <= u.W; } } if (ex) s.cls(4);
    i64 Eq = a.exp - b.exp + (mpz_cmp(x.z, y.z) < 0 ? -1 : 0); near(u, "/", a, b, x.z, y.z, a.exp - b.exp, a.neg != b.neg, q, Eq - (u.W - 3), fita && fitb, ex);
  } else { special(u, "*", a, b, sp_mul(kd(a), kd(b)), p); Dy w = sp_div(kd(a), kd(b)); special(u, "/", a, b, w, q); }
  Full oneF{FIN, false, 0, 0};
  if (b.type == FIN) { Z x, y; sig(x.z, oneF); sig(y.z, b); near(u, "inv", oneF, b, x.z, y.z, -b.exp, b.neg, iv, -b.exp - (b.frac ? 1 : 0) - (u.W - 3), fitb, b.frac == 0); }
  else special(u, "inv", oneF, b, sp_div(kd(oneF), kd(b)), iv);
  Full n = u.neg(a), w = a; if (a.type == FIN || a.type == INF) w.neg = !w.neg;
  if (!same(n, w) || (a.type == ZERO && n.neg)) fail("%s: -(%s) gives %s", u.name.c_str(), fs(a).c_str(), fs(n).c_str());
  if (!same(u.neg(n), a)) fail("%s: negating %s twice gives %s", u.name.c_str(), fs(a).c_str(), fs(u.neg(n)).c_str());
  for (int k = 0; k < 3; k++) { const Full& y = k == 0 ? b : k == 1 ? a : n; bool e = a.type != NAN_ && y.type != NAN_ && same(a, y); int r = u.eq(a, y); if (r != (e ? 1 : 2)) fail("%s: == of %s and %s is %d, != is %d", u.name.c_str(), fs(a).c_str(), fs(y).c_str(), r & 1, r >> 1); }
  int pr = u.preds(a), wp = (a.type == INF) | (a.type == FIN) << 1 | (a.type == NAN_) << 2 | (a.type == ZERO) << 3; if ((pr & 15) != wp || (a.type != NAN_ && (pr >> 4 & 1) != !(a.type != ZERO && a.neg))) fail("%s: classification of %s is %#x", u.name.c_str(), fs(a).c_str(), pr);
}
static void consts(Src& s) {
  IUnp& u = *g_unps[s.draw(g_unps.size())]; int k = (int)s.draw(6); s.note(true, u.W * 100 + u.EB, k); s.covered = true; SHOW(s, "%s constant %d", u.name.c_str(), k);
  static const Full W[] = {{INF, false, 0, 0}, {INF, false, 0, 0}, {INF, true, 0, 0}, {NAN_, false, 0, 0}, {FIN, false, 0, 0}, {ZERO, false, 0, 0}};
  if (!same(u.cst(k), W[k])) fail("%s: constant %d is %s", u.name.c_str(), k, fs(u.cst(k)).c_str());
}
CHECK_MAIN("P15", "both operands are finite and non-zero") {
  c.bodies.push_back(Body{"arithmetic", body, 10000, 150000, {}, {"special operand", "exponents further apart than the fraction", "cancellation", "exact product", "exact quotient"}});
  c.bodies.push_back(Body{"constants", consts, 0, 0, {Exh{g_unps.size() * 6, [](u64 i, std::vector<u64>& o) { o = {i / 6, i % 6}; }}}, {}});
}
