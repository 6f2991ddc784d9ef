#include "../gen.hpp"
static void verdict(Src& s, IPosit& c, const char* src, const Dy& d, i64 got) {
  i64 want = ref_encode(c.f, d);
  bool inexact = d.k == FIN && !ref_exact(c.f, d);
  s.cls(d.k); if (inexact) s.cls(4);
  if (d.k == FIN && dy_cmpmag(d, ref_decode(c.f, c.f.maxpos())) > 0) s.cls(5);
  if (d.k == FIN && dy_cmpmag(d, ref_decode(c.f, 1)) < 0) s.cls(6);
  if (got != want) fail("%s: posit of %s %s is %lld, expected %s", c.name.c_str(), src, dy_str(d).c_str(), (long long)got, PV(c, want));
}
static void from_float(Src& s) {
  IPosit& c = gen_cfg(s); uint32_t b = gen_fbits(s, c.f); Dy d = fl_decode(F_SINGLE, b);
  s.note(d.k == FIN && !ref_exact(c.f, d), cfg_id(c), b); SHOW(s, "%s from float bits %08x = %s", c.name.c_str(), b, dy_str(d).c_str());
  verdict(s, c, "float", d, c.from_f(bits_f(b)));
  verdict(s, c, "float bits", d, c.from_fbits(b));
}
static void from_double(Src& s) {
  IPosit& c = gen_cfg(s); u64 b = gen_dbits(s, c.f); Dy d = fl_decode(F_DOUBLE, b);
  s.note(d.k == FIN && !ref_exact(c.f, d), cfg_id(c), b); SHOW(s, "%s from double bits %016llx = %s", c.name.c_str(), (unsigned long long)b, dy_str(d).c_str());
  verdict(s, c, "double", d, c.from_d(bits_d(b)));
}
static void from_int(Src& s) {
  IPosit& c = gen_cfg(s); int i = gen_int(s); Dy d = dy_from_int(i);
  s.note(i != 0, cfg_id(c), (u64)i); SHOW(s, "%s from int %d", c.name.c_str(), i);
  verdict(s, c, "int", d, c.from_i(i));
}
CHECK_MAIN("P02", "the input is a finite non-zero number (float, double: one the format cannot hold exactly)") {
  std::vector<std::string> cl = {"finite", "infinity", "NaN", "zero", "inexact", "above the largest posit", "below the smallest posit"};
  std::vector<Exh> ef;
  // a complete walk over coarse floats (top 14 bits quick, 24 bits thorough) in every format
  int bits = g_thorough ? 20 : 13;
  for (size_t i = 0; i < g_cfgs.size(); i++) ef.push_back(Exh{1ull << bits, [i, bits](u64 x, std::vector<u64>& o) { o = {i, 0, x << (32 - bits)}; }});
  if (g_thorough) for (size_t i = 1; i < g_cfgs.size(); i += g_cfgs.size() / 3) ef.push_back(Exh{1ull << 32, [i](u64 x, std::vector<u64>& o) { o = {i, 0, x}; }});
  c.bodies.push_back(Body{"from-float", from_float, 5000, 100000, ef, cl});
  c.bodies.push_back(Body{"from-double", from_double, 5000, 200000, {}, cl});
  c.bodies.push_back(Body{"from-int", from_int, 3000, 80000, {}, cl});
}
