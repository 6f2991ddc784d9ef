#include "../h16.hpp"
#include "../gen.hpp"
#include "../lgen.hpp"
void register_cfgs() { register_half(); }
std::vector<IPosit*> g_cfgs;
static const FFmt& f = F_HALF;
static double val(u64 b) { Dy d = fl_decode(f, b); switch (d.k) { case NAN_: return NAN; case INF: return d.neg ? -INFINITY : INFINITY; case ZERO: return (b & 0x8000) ? -0.0 : 0.0; default: return ldexp((double)d.m, (int)d.e - 63) * (d.neg ? -1 : 1); } }
// nearest half, ties to even, overflow to infinity; from the truncated encoding and its upper neighbour
static u64 enc_rne(const Dy& d) {
  u64 t = fl_encode(f, d); if (d.k != FIN) return t; u64 s = d.neg ? 0x8000 : 0, mg = t & 0x7fff;
  Dy lo = fl_decode(f, mg), hi; if (mg == f.maxfin()) hi = dy_make(false, 1, 16); else hi = fl_decode(f, mg + 1);
  Dy a = dy_abs(d); Dy dl = dy_sub(a, lo), dh = dy_sub(hi, a); if (mg == f.maxfin() && dy_cmp(a, hi) >= 0) return s | 0x7c00;
  int c = dy_cmp(dl, dh); if (c > 0 || (c == 0 && (mg & 1))) mg++;
  return s | mg;
}
static u64 enc(double w) { Dy d = dy_from_double(w); return g_half->hw() ? enc_rne(d) : fl_encode(f, d); }
static void verdict(Src& s, const char* op, const std::string& args, double w, u64 g, bool anysign = false) {
  Dy d = dy_from_double(w); u64 want = enc(w); bool ok;
  if (anysign && d.k == INF) ok = (g & 0x7fff) == 0x7c00;      // without hardware zeros carry no sign
  else if (d.k == NAN_) ok = fl_isnan(f, g); else ok = dy_same(fl_decode(f, g), fl_decode(f, want));
  if (g >> 16) ok = false;
  if (!ok) fail("%s of %s gives %#llx, expected %#llx (native %.9g)", op, args.c_str(), (unsigned long long)g, (unsigned long long)want, w);
  Dy e = fl_decode(f, g); if (d.k == FIN) { if (!dy_same(e, d)) s.cls(0); if ((g & 0x7c00) == 0) s.cls(1); if (e.k == INF || (g & 0x7fff) == 0x7bff) s.cls(2); }
}
#define H(v) strf("%#llx (%.9g)", (unsigned long long)(v), val(v))
static u64 rel(Src& s, u64 a) { switch (s.draw(6)) { case 4: return (a + (u64)s.range(-2, 2)) & 0xffff; case 5: return ((a ^ 0x8000) + (u64)s.range(-2, 2)) & 0xffff; default: return gen_lay(s, f); } }
static float nat(int op, float x, float y) { volatile float p = x, q = y, r; switch (op) { case 0: r = p + q; break; case 1: r = p - q; break; case 2: r = p * q; break; default: r = p / q; } return r; }
static void tofrom(Src& s) {
  u64 x = gen_lay(s, f); Dy d = fl_decode(f, x); s.covered = true; s.note(d.k == FIN, x, 7); SHOW(s, "%s", H(x).c_str()); std::string t = H(x); IHalf& a = *g_half;
  float tf = a.to_f(x); double td = a.to_d(x);
  if (d.k == NAN_) { if (tf == tf || td == td) fail("NaN %s converts to a number", t.c_str()); if (!fl_isnan(f, a.from_f(tf))) fail("NaN lost through float"); }
  else { if (tf != (float)val(x)) fail("%s to float gives %.9g", t.c_str(), tf); if (td != val(x)) fail("%s to double gives %.9g", t.c_str(), td); verdict(s, "half to float to half", t, val(x), a.from_f(tf)); }
  for (int k = 0; k < 3; k++) if (a.raw(x, k) != x) fail("raw pattern of %s is %#llx", t.c_str(), (unsigned long long)a.raw(x, k));
  for (int k = 4; k < 6; k++) if (a.un(k, x) != (x ^ 0x8000)) fail("negation of %s gives %#llx", t.c_str(), (unsigned long long)a.un(k, x));
  for (int k = 6; k < 8; k++) if (a.un(k, x) != (x & 0x7fff)) fail("absolute value of %s gives %#llx", t.c_str(), (unsigned long long)a.un(k, x));
  float v = (float)val(x); verdict(s, "half", t, nat(3, v, 2), a.un(0, x)); verdict(s, "square", t, nat(2, v, v), a.un(1, x)); verdict(s, "inv", t, nat(3, 1, v), a.un(2, x), d.k == ZERO); verdict(s, "sqrt", t, sqrtf(v), a.un(3, x));
}
static void fromf(Src& s) {
  uint32_t b; switch (s.draw(4)) {
    case 0: b = (uint32_t)s.draw(0); break;
    case 1: { Fmt p{16, 1, WITHNAN}; b = gen_fbits(s, p); break; }
    default: { u64 x = gen_lay(s, f); b = f_bits((float)val(x)); int k = (int)s.draw(5); if (k == 1) b += 0x1000; if (k == 2) b += 0x1000 + (uint32_t)s.range(-2, 2); if (k == 3) b += (uint32_t)s.range(-3, 3); if (k == 4) b = f_bits((float)(ldexp(1.0, -25) * (double)s.range(0, 4100))) | (uint32_t)s.draw(2) << 31; }
  }
  Dy d = fl_decode(F_SINGLE, b); s.note(d.k == FIN, b, 1); SHOW(s, "float bits %#x (%.9g)", b, bits_f(b));
  verdict(s, "conversion", strf("float bits %#x (%.9g)", b, bits_f(b)), bits_f(b), g_half->from_f(bits_f(b)));
}
static void pairs(Src& s) {
  u64 x = gen_lay(s, f), y = rel(s, x); Dy dx = fl_decode(f, x), dy = fl_decode(f, y); s.note(dx.k == FIN && dy.k == FIN, x, y, 2); SHOW(s, "%s, %s", H(x).c_str(), H(y).c_str()); IHalf& a = *g_half;
  float vx = (float)val(x), vy = (float)val(y); static const char* N[] = {"sum", "difference", "product", "quotient", "+=", "*="}; std::string t = H(x) + ", " + H(y);
  for (int op = 0; op < 6; op++) verdict(s, N[op], t, nat(op == 4 ? 0 : op == 5 ? 2 : op, vx, vy), a.bin(op, x, y), op == 3 && dy.k == ZERO);
  verdict(s, "rem", t, remainder(vx, vy), a.bin(6, x, y));
  int w = (vx == vy) | (vx < vy) << 1 | (vx > vy) << 2 | (vx >= vy) << 3 | (vx <= vy) << 4, g = a.cmp(x, y); if (w != g) fail("comparisons of %s are %#x, expected %#x", t.c_str(), g, w);
}
static void mads(Src& s) {
  u64 x = gen_lay(s, f), y = rel(s, x), z = s.draw(2) ? gen_lay(s, f) : rel(s, fl_encode(f, dy_from_double(val(x) * val(y)))); s.note(fl_decode(f, x).k == FIN && fl_decode(f, y).k == FIN && fl_decode(f, z).k == FIN, x, y, z, 3);
  std::string t = H(x) + ", " + H(y) + ", " + H(z); SHOW(s, "mulAdd %s", t.c_str());
  float p = nat(2, (float)val(x), (float)val(y)); verdict(s, "mulAdd", t, nat(0, p, (float)val(z)), g_half->mad(x, y, z));
}
static void misc(Src& s) {
  u64 x = s.draw(65536); s.covered = true; s.note(fl_decode(f, x).k == FIN, x, 9); SHOW(s, "print %s", H(x).c_str());
  static const u64 w[] = {0, 0x3c00, 0x4000, 0}; for (int i = 0; i < 4; i++) if (g_half->cst(i) != w[i]) fail("constant %d is %#llx", i, (unsigned long long)g_half->cst(i));
  if (fl_decode(f, x).k == FIN) { char b[64]; snprintf(b, 64, "f16(%g)", val(x)); if (g_half->print(x) != b) fail("%s prints as %s, expected %s", H(x).c_str(), g_half->print(x).c_str(), b); }
}
CHECK_MAIN("P19", "all operands are finite and non-zero") {
  std::vector<std::string> cl{"rounded", "subnormal or zero result", "overflow"};
  Exh all{65536, [](u64 i, std::vector<u64>& o) { o = {0, i}; }}, all1{65536, [](u64 i, std::vector<u64>& o) { o = {i}; }};
  std::vector<Exh> ff, pp;
  if (g_thorough) { ff.push_back(Exh{1ull << 32, [](u64 i, std::vector<u64>& o) { o = {0, i}; }}); pp.push_back(Exh{1ull << 32, [](u64 i, std::vector<u64>& o) { o = {0, i >> 16, 0, 0, i & 0xffff}; }}); }
  c.bodies.push_back(Body{"convert", tofrom, 0, 0, {all}, cl});
  c.bodies.push_back(Body{"from-float", fromf, 6000, 100000, ff, cl});
  c.bodies.push_back(Body{"pairs", pairs, 3000, 20000, pp, cl});
  c.bodies.push_back(Body{"muladd", mads, 3000, 100000, {}, cl});
  c.bodies.push_back(Body{"print-constants", misc, 0, 0, {all1}, {}});
}
