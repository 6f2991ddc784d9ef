#include "../lay.hpp"
#include "../lgen.hpp"
void register_cfgs() { register_lays(); }
std::vector<IPosit*> g_cfgs;
static std::string fs(const Full& x) { return x.type == ZERO ? "0" : x.type == NAN_ ? "NaN" : x.type == INF ? (x.neg ? "-Inf" : "+Inf") : strf("%c1.%016llxp%lld", x.neg ? '-' : '+', (unsigned long long)x.frac, (long long)x.exp); }
static bool bitsok(const FFmt& f, const Dy& d, u64 got) {
  if (d.k == NAN_) return fl_isnan(f, got) && got <= (f.bits() == 64 ? ~0ull : (1ull << f.bits()) - 1);
  u64 w = fl_encode(f, d); return got == w || (w == 0 && got == f.sign());
}
static int cl(const FFmt& f, const Dy& d, u64 b) { if (d.k == NAN_) return 0; if (d.k == INF) return 1; if (d.k == ZERO) return 2; return ((b >> f.fb) & f.emask()) == 0 ? 3 : 4; }
static void decode(Src& s) {
  ILay& l = *g_lays[s.draw(g_lays.size())]; const FFmt& f = l.f; u64 b = gen_lay(s, f); int how = (int)s.draw(3); Dy d = fl_decode(f, b); bool lost = false;
  Dy w = d; Dy c = d.k == FIN && l.W < 63 ? dy_chop(w, l.W + 1, &lost) : w; s.note(d.k == FIN, (f.eb * 64 + f.fb) * 1000 + l.W + l.EB, b, how); s.cls(cl(f, d, b)); if (lost) s.cls(5);
  SHOW(s, "decode %#llx as %s", (unsigned long long)b, l.name.c_str());
  Full g = l.decode(b, how); bool ok = g.type == c.k;
  if (ok && c.k == INF) ok = g.neg == c.neg;
  if (ok && c.k == ZERO) ok = !g.neg;
  if (ok && c.k == FIN) ok = g.neg == c.neg && g.exp == c.e && g.frac == c.m << 1;
  if (!ok) fail("%s: %#llx decodes to %s, expected %s", l.name.c_str(), (unsigned long long)b, fs(g).c_str(), dy_str(c).c_str());
  for (int h = 0; h < 2; h++) { u64 r = l.encode(g, h); if (!bitsok(f, c, r)) fail("%s: %#llx decoded and encoded again gives %#llx", l.name.c_str(), (unsigned long long)b, (unsigned long long)r); if (!lost && d.k == FIN && r != b) fail("%s: %#llx does not survive: %#llx", l.name.c_str(), (unsigned long long)b, (unsigned long long)r); }
}
static void encode(Src& s) {
  ILay& l = *g_lays[s.draw(g_lays.size())]; const FFmt& f = l.f; Full x{FIN, false, 0, 0}; u64 m = s.draw(12);
  if (m == 11) { x.type = (int)s.draw(3) + 1; x.neg = x.type == INF && s.draw(2); }
  else {
    x.neg = s.draw(2); i64 M = l.EB == 16 ? 15000 : 100000;
    switch (s.draw(6)) { case 0: x.exp = s.range(-8, 8); break; case 1: x.exp = f.bias() + s.range(-3, 3); break; case 2: x.exp = 1 - f.bias() - s.range(-2, f.fb + 3); break; case 3: x.exp = s.range(-M, M); break; default: x.exp = s.range(-f.bias() - f.fb - 2, f.bias() + 2); }
    if (l.EB == 16 && x.exp > 15000) x.exp = 15000; if (l.EB == 16 && x.exp < -15000) x.exp = -15000;
    x.frac = gen_bits(s, l.W) << (64 - l.W);
  }
  Dy d; d.k = (Kind)x.type; d.neg = x.neg; if (x.type == FIN) { d.e = x.exp; d.m = (1ull << 63) | x.frac >> 1; d.sticky = x.frac & 1; }
  s.note(x.type == FIN, (f.eb * 64 + f.fb) * 1000 + l.W + l.EB, x.frac, x.exp * 2 + x.neg, x.type); SHOW(s, "encode %s as %s", fs(x).c_str(), l.name.c_str());
  for (int h = 0; h < 2; h++) {
    u64 r = l.encode(x, h); if (!bitsok(f, d, r)) fail("%s: %s encodes to %#llx, expected %#llx", l.name.c_str(), fs(x).c_str(), (unsigned long long)r, (unsigned long long)fl_encode(f, d));
    if (h == 0) { s.cls(cl(f, fl_decode(f, r), r)); if (d.k == FIN && (r & ~f.sign()) == f.maxfin()) s.cls(5); if (d.k == FIN && !dy_same(fl_decode(f, r), d)) s.cls(6); }
  }
}
static void conv(Src& s) {
  IConv& c = *g_convs[s.draw(g_convs.size())]; u64 b = gen_lay(s, c.a);
  Dy d = fl_decode(c.a, b); s.note(d.k == FIN, c.a.eb * 100 + c.b.eb, b, c.a.fb * 100 + c.b.fb); SHOW(s, "convert %#llx (%s), %s", (unsigned long long)b, dy_str(d).c_str(), c.name.c_str());
  u64 r = c.conv(b); if (!bitsok(c.b, d, r)) fail("%s: %#llx (%s) gives %#llx, expected %#llx", c.name.c_str(), (unsigned long long)b, dy_str(d).c_str(), (unsigned long long)r, (unsigned long long)fl_encode(c.b, d));
  s.cls(cl(c.b, fl_decode(c.b, r), r)); if (d.k == FIN && (r & ~c.b.sign()) == c.b.maxfin()) s.cls(5); if (d.k == FIN && !dy_same(fl_decode(c.b, r), d)) s.cls(6);
}
static void consts(Src& s) {
  ILay& l = *g_lays[s.draw(g_lays.size())]; const FFmt& f = l.f; int i = (int)s.draw(8); u64 g = l.consts(i); s.note(true, f.eb * 64 + f.fb, i, l.W); s.covered = true; SHOW(s, "%s constant %d", l.name.c_str(), i);
  u64 one = (u64)f.bias() << f.fb; u64 w[] = {f.infb(), f.infb() | f.sign(), 0, one, one + (1ull << f.fb), f.maxfin(), 1ull << f.fb, f.maxfin() | f.sign()};
  if (i == 2 ? !fl_isnan(f, g) : g != w[i]) fail("%s: constant %d is %#llx, expected %#llx", l.name.c_str(), i, (unsigned long long)g, (unsigned long long)w[i]);
}
CHECK_MAIN("P16", "the number is finite and non-zero") {
  std::vector<Exh> e1, e2;
  for (size_t i = 0; i < g_lays.size(); i++) if (g_lays[i]->f.bits() <= 16) e1.push_back(Exh{3ull << g_lays[i]->f.bits(), [i](u64 x, std::vector<u64>& o) { o = {i, 0, x / 3, x % 3}; }});
  for (size_t i = 0; i < g_convs.size(); i++) if (g_convs[i]->a.bits() <= 16) e2.push_back(Exh{1ull << g_convs[i]->a.bits(), [i](u64 x, std::vector<u64>& o) { o = {i, 0, x}; }});
  std::vector<std::string> k = {"NaN", "infinity", "zero", "subnormal", "normal"}, ke = k, kd = k; kd.push_back("wider than the fraction type"); ke.push_back("largest finite"); ke.push_back("truncated");
  c.bodies.push_back(Body{"decode", decode, 6000, 150000, e1, kd});
  c.bodies.push_back(Body{"encode", encode, 12000, 300000, {}, ke});
  c.bodies.push_back(Body{"convert", conv, 8000, 200000, e2, ke});
  c.bodies.push_back(Body{"constants", consts, 0, 0, {Exh{g_lays.size() * 8, [](u64 i, std::vector<u64>& o) { o = {i / 8, i % 8}; }}}, {}});
}
