#include "../fix.hpp"
#include "../gen.hpp"
void register_cfgs() { register_fixs(); }
std::vector<IPosit*> g_cfgs;
static std::string fs(const Full& x) { return x.type == ZERO ? "0" : strf("%c1.%016llxp%lld (kind %d)", x.neg ? '-' : '+', (unsigned long long)x.frac, (long long)x.exp, x.type); }
static i64 lowest(int N) { return (i64)(~0ull << (N - 1)); }
static i64 gen_val(Src& s, int N) {
  u64 m = N == 64 ? ~0ull : (1ull << N) - 1, v;
  switch (s.draw(6)) { case 0: v = s.draw(0) & m; break; case 1: v = (u64)s.range(-20, 20); break; case 2: v = (u64)lowest(N) + (u64)s.range(-3, 3); break; case 3: v = (1ull << s.draw(N)) + (u64)s.range(-2, 2); break; default: v = gen_bits(s, 1 + (int)s.draw(N)); if (s.draw(2)) v = 0 - v; }
  v &= m; return (i64)(v << (64 - N)) >> (64 - N);
}
static Dy value(i64 v, int F) { return dy_scale(dy_from_int(v), -F); }
static Dy dval(i64 v, int F) { return dy_make(v < 0, v < 0 ? 0 - (u64)v : (u64)v, -F); }
static i64 want(const Dy& d, int N, int F) {
  if (d.k == ZERO) return 0;
  i64 e = d.e + F; if (e < 0) return 0; if (e >= N - 1) return d.neg ? lowest(N) : ~lowest(N);
  u64 m = d.m >> (63 - e); return d.neg ? (i64)(0 - m) : (i64)m;
}
static bool same(const Full& g, const Dy& d) { if (g.type != d.k) return false; if (d.k == ZERO) return !g.neg; return g.neg == d.neg && g.exp == d.e && g.frac == d.m << 1; }
static void decode(Src& s) {
  IFix& x = *g_fixs[s.draw(g_fixs.size())]; i64 v = gen_val(s, x.N); int how = (int)s.draw(2); bool lost = false; Dy d = dval(v, x.F), c = x.W < 63 ? dy_chop(d, x.W + 1, &lost) : d; (void)value;
  s.note(v != 0, x.N * 100 + x.F, x.W, v, how); s.covered = x.N <= 16; SHOW(s, "%s decode %lld", x.name.c_str(), (long long)v); if (lost) s.cls(0); if (v == lowest(x.N)) s.cls(1); if (v < 0) s.cls(2);
  Full g = x.decode(v, how); if (!same(g, c)) fail("%s: %lld decodes to %s, expected %s", x.name.c_str(), (long long)v, fs(g).c_str(), dy_str(c).c_str());
  i64 b = x.encode(g), w = want(c, x.N, x.F); if (b != w) fail("%s: %lld decoded and encoded gives %lld, expected %lld", x.name.c_str(), (long long)v, (long long)b, (long long)w);
  if (!lost && b != v) fail("%s: %lld comes back as %lld", x.name.c_str(), (long long)v, (long long)b);
}
static Full gen_full(Src& s, int W, int N, int F, i64 M) {
  Full x{FIN, false, 0, 0}; if (s.draw(30) == 29) { x.type = ZERO; return x; } x.neg = s.draw(2);
  switch (s.draw(4)) { case 0: x.exp = s.range(-F - 3, N - F + 3); break; case 1: x.exp = N - F - 1 + s.range(-2, 2); break; case 2: x.exp = -F + s.range(-2, 2); break; default: x.exp = s.range(-M, M); }
  if (x.exp > M) x.exp = M; if (x.exp < -M) x.exp = -M;
  x.frac = gen_bits(s, W) << (64 - W); return x;
}
static Dy fdy(const Full& x) { Dy d; d.k = (Kind)x.type; if (x.type == FIN) { d.neg = x.neg; d.e = x.exp; d.m = (1ull << 63) | x.frac >> 1; d.sticky = x.frac & 1; } return d; }
static void encode(Src& s) {
  IFix& x = *g_fixs[s.draw(g_fixs.size())]; Full u = gen_full(s, x.W, x.N, x.F, x.EB == 16 ? 16000 : 100000); Dy d = fdy(u); i64 w = want(d, x.N, x.F);
  s.note(w != 0, x.N * 100 + x.F, x.W, u.frac, u.exp * 2 + u.neg); SHOW(s, "%s encode %s", x.name.c_str(), fs(u).c_str()); if (d.k == FIN && d.e >= x.N - x.F - 1) s.cls(0); if (w == 0) s.cls(1); if (w && !(d.e >= x.N - x.F - 1)) s.cls(2);
  i64 g = x.encode(u); if (g != w) fail("%s: %s encodes to %lld, expected %lld", x.name.c_str(), fs(u).c_str(), (long long)g, (long long)w);
}
static void ints(Src& s) {
  IInt& x = *g_ints[s.draw(g_ints.size())]; int v = gen_int(s); int how = (int)s.draw(2); bool lost = false; Dy d = dy_from_int(v), c = x.W < 63 ? dy_chop(d, x.W + 1, &lost) : d;
  s.note(v != 0, x.W, v, how, 1); SHOW(s, "%s %d", x.name.c_str(), v); if (lost) s.cls(0); if (v == INT32_MIN) s.cls(1); if (v < 0) s.cls(2);
  Full g = x.decode(v, how); if (!same(g, c)) fail("%s: %d decodes to %s, expected %s", x.name.c_str(), v, fs(g).c_str(), dy_str(c).c_str());
  i64 w = want(c, 32, 0); int b = x.encode(g); if (b != w) fail("%s: %d comes back as %d, expected %lld", x.name.c_str(), v, b, (long long)w);
  Full u = gen_full(s, x.W, 32, 0, 120); w = want(fdy(u), 32, 0); b = x.encode(u); if (b != w) fail("%s: %s to int gives %d, expected %lld", x.name.c_str(), fs(u).c_str(), b, (long long)w);
}
CHECK_MAIN("P17", "the number (or what it encodes to) is not zero") {
  std::vector<Exh> e; for (size_t i = 0; i < g_fixs.size(); i++) if (g_fixs[i]->N <= 16) e.push_back(Exh{2ull << g_fixs[i]->N, [i](u64 x, std::vector<u64>& o) { o = {i, 0, x >> 1, x & 1}; }});
  c.bodies.push_back(Body{"decode", decode, 8000, 200000, e, {"wider than the fraction type", "lowest value", "negative"}});
  c.bodies.push_back(Body{"encode", encode, 16000, 300000, {}, {"saturates", "truncates to zero", "in range"}});
  c.bodies.push_back(Body{"int", ints, 8000, 200000, {}, {"wider than the fraction type", "lowest value", "negative"}});
}
