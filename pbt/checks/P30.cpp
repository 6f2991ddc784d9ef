#include "../gen.hpp"
#include "../text.hpp"
#include "../tother.hpp"
#include <cstring>
static std::string unpacked_text(const IPosit& c, i64 v) { return unpacked_text(ref_decode(c.f, v), c.ftb); }
static int EXN() { return g_thorough ? 16 : 12; }
// one insertion in each base on a fresh stream
static void one(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; i64 v = gen_pat(s, f); Dy d = ref_decode(f, v); s.covered = f.N <= EXN();
  s.note(v != 0, cfg_id(c), v); SHOW(s, "%s %s", c.name.c_str(), PV(c, v)); s.cls(d.k == FIN ? 0 : 1); if (c.holder == 8) s.cls(2);
  std::ostringstream r;
  for (int base = 0; base < 3; base++) {
    i64 g[4] = {0, base, 7, v}; std::string got = c.print(g, 2, 0); got = got.substr(0, got.find('|'));
    std::string want;
    if (base == 1) want = strf("%lld", (long long)v);
    else if (base == 2) { want = unpacked_text(c, v); if (f.spec == WITHINF && d.k == INF) want = got == "up(-infinity)" ? got : "up(+infinity)"; }
    else { float x = bits_f(c.to_fbits(v, 0)); r.str(""); r << x; want = r.str(); if (d.k == NAN_ && (got == "nan" || got == "-nan")) want = got; }
    if (got != want) fail("%s: %s printed in %s mode reads \"%s\", expected \"%s\"", c.name.c_str(), PV(c, v), base == 0 ? "decimal" : base == 1 ? "hexadecimal" : "octal", got.c_str(), want.c_str());
  }
  if (d.k == FIN) {   // the decimal form, read back, is the value to six digits when a float can hold it
    double x = std::ldexp((double)(d.m >> 11), (int)(d.e > 2000 ? 2000 : d.e < -2000 ? -2000 : d.e) - 52) * (d.neg ? -1 : 1);
    if (std::fabs(x) > 1.2e-38 && std::fabs(x) < 3.3e38) { i64 g[4] = {0, 0, 7, v}; double y = strtod(c.print(g, 2, 0).c_str(), nullptr); s.cls(3);
      if (!(std::fabs(x - y) <= std::fabs(x) * 6e-6)) fail("%s: %s printed in decimal mode reads %.17g, its value is %.17g", c.name.c_str(), PV(c, v), y, x); }
  }
}
static void history(Src& s) {
  IPosit& c = gen_cfg(s); const Fmt& f = c.f; int n = 1 + (int)s.draw(12); i64 g[26]; u64 h = n; int ins = 0, bases = 0; std::string t;
  for (int i = 0; i < n; i++) {
    u64 k = s.draw(12); i64 a = 0, act;
    if (k <= 4) { act = 7; a = gen_pat(s, f); ins++; }
    else if (k <= 6) { act = 0; a = (i64)s.draw(3); bases++; }
    else { act = (i64)k - 6; switch (act) { case 1: a = s.range(0, 12); break; case 2: a = s.range(0, 30); break; case 3: a = "x 0*_"[s.draw(5)]; break; case 4: a = (i64)s.draw(12); break; case 5: act = s.draw(2) ? 5 : 6; a = act == 5 ? (i64)s.draw(3) : (i64)gen_int(s); break; } }
    g[2 * i] = act; g[2 * i + 1] = a; h = mix64(h ^ (u64)act) + (u64)a;
    if (s.want) t += act == 7 ? strf(" << posit %lld;", (long long)a) : strf(" %s %lld;", act == 0 ? "base" : act == 1 ? "precision" : act == 2 ? "width" : act == 3 ? "fill" : act == 4 ? "flag" : act == 5 ? "float format" : "<< int", (long long)a);
  }
  s.note(ins >= 2 && bases >= 1, cfg_id(c), h); SHOW(s, "%s:%s", c.name.c_str(), t.c_str()); if (bases >= 2) s.cls(0); if (ins >= 3) s.cls(1);
  std::string a = c.print(g, n, 0), b = c.print(g, n, 1);
  if (a != b) { t = ""; for (int i = 0; i < n; i++) t += strf(" (%lld,%lld)", (long long)g[2 * i], (long long)g[2 * i + 1]); fail("%s: stream actions%s give \"%s\", expected \"%s\" (text, then size:flags:precision after each action)", c.name.c_str(), t.c_str(), a.c_str(), b.c_str()); }
}
// histories of insertions of the other printable types into one stream with changes of base and precision between
static void others(Src& s) {
  static bool once = (register_others(), true); (void)once;
  std::ostringstream a, b; std::string t; int n = 2 + (int)s.draw(8), ins = 0, bases = 0; u64 h = n, ks = 0;
  for (int i = 0; i < n; i++) {
    u64 k = s.draw(8);
    if (k == 0 || k == 1) { int bs = (int)s.draw(3); for (auto* o : {&a, &b}) o->setf(bs == 0 ? std::ios::dec : bs == 1 ? std::ios::hex : std::ios::oct, std::ios::basefield); bases++; h = mix64(h + bs); if (s.want) t += bs == 0 ? " dec" : bs == 1 ? " hex" : " oct"; continue; }
    if (k == 2) { i64 x = gen_int(s); a << x << ' '; b << x << ' '; h = mix64(h + x); if (s.want) t += strf(" %lld", (long long)x); continue; }
    const TOther& o = g_others[s.draw(g_others.size())]; long long g[4] = {0, 0, 0, 0}; std::string w; auto fl = a.flags(); ins++; ks |= 1ull << (&o - &g_others[0]); s.cls(o.kind); char c[128];
    if (o.kind == 0) {
      u64 ty = s.draw(8); g[0] = ty < 5 ? 0 : (int)ty - 4; g[1] = s.draw(2); g[2] = s.range(-(1ll << (o.eb == 8 ? 7 : 12)), (1ll << (o.eb == 8 ? 7 : 12)) - 1); u64 fr = s.draw(0) >> s.draw(64); if (o.w < 64) fr &= (1ull << o.w) - 1; g[3] = (long long)fr;
      if (g[0] == 0) { snprintf(c, sizeof c, "up(%s exp (dec) = %lld fraction (hex) = %llx (bin) = ", g[1] ? "-" : "+", g[2], (unsigned long long)fr); w = c + bits_str(fr, o.w) + ")"; } else w = g[0] == 1 ? (g[1] ? "up(-infinity)" : "up(+infinity)") : g[0] == 2 ? "up(nan)" : "up(0)";
      b << w;
    } else {
      i64 v = (i64)(s.draw(0) & ((1ull << o.w) - 1)); g[0] = o.w == 16 ? v : (v ^ (1ll << (o.w - 1))) - (1ll << (o.w - 1));
      if (o.kind == 1) b << o.name << "(" << (unsigned)v << ")"; else { float x = o.val(v); b << "f16(" << x << ")"; }
      if (s.want) w = strf("%s%d pattern %lld", o.name, o.w, (long long)v);
    }
    o.put(a, g); h = mix64(h ^ (u64)g[0] ^ (u64)g[3] * 3 ^ (u64)g[2]); if (s.want) t += " " + w + ";";
    a << ' '; b << ' ';
    if (a.flags() != fl) { s.note(true, ks, h); SHOW(s, "insertions:%s", t.c_str()); fail("%s: inserting %s changes the stream's flags from %x to %x", t.c_str(), o.name, (unsigned)fl, (unsigned)a.flags()); }
  }
  s.note(ins >= 2 && bases >= 1, ks, h); SHOW(s, "insertions:%s", t.c_str());
  std::string x = a.str(), y = b.str(); for (std::string* z : {&x, &y}) for (size_t p; (p = z->find("-nan")) != std::string::npos;) z->erase(p, 1);
  if (x != y) fail("inserted%s: the stream reads \"%s\", expected \"%s\"", t.c_str(), x.c_str(), y.c_str());
}
CHECK_MAIN("P30", "single: the posit is not zero; histories: at least two values inserted and one change of base") {
  c.bodies.push_back(Body{"single", one, 400, 12000, exh_unary(EXN()), {"finite", "special or zero", "8-bit holder", "read back"}});
  c.bodies.push_back(Body{"history", history, 500, 12000, {}, {"base changed twice", "three or more insertions"}});
  c.bodies.push_back(Body{"others", others, 500, 12000, {}, {"unpacked", "tabulated", "half precision"}});
}
