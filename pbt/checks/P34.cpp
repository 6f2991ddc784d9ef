#include "../gen.hpp"
#include "../lgen.hpp"
#include "../mex/mexlib.hpp"
#include <math.h>
std::vector<IPosit*> g_cfgs; void register_cfgs() {}
extern "C" { void mex_half(int, mxArray**, int, const mxArray**); void mex_top8(int, mxArray**, int, const mxArray**); void mex_tofloat(int, mxArray**, int, const mxArray**); void mex_binop(int, mxArray**, int, const mxArray**); void mex_unop(int, mxArray**, int, const mxArray**);
  int ieee_singles2halfp(void*, void*, int); int ieee_doubles2halfp(void*, void*, int); int ieee_halfp2singles(void*, void*, int); int ieee_halfp2doubles(void*, void*, int); }
static const Fmt P8{8, 0, WITHNAN};
typedef unsigned long long ull;
// ---- oracle: nearest half, ties away from zero, overflow to infinity, everything keeps its sign
static bool neg_bits(const FFmt& f, u64 b) { return (b & f.sign()) != 0; }
static u64 half_of(const FFmt& f, u64 b) {
  Dy d = fl_decode(f, b); u64 s = neg_bits(f, b) ? 0x8000 : 0; if (d.k == NAN_) return 0xfe00; if (d.k == INF) return s | 0x7c00; if (d.k == ZERO) return s;
  Dy a = dy_abs(d); u64 m = fl_encode(F_HALF, a); Dy lo = fl_decode(F_HALF, m), hi = m == F_HALF.maxfin() ? dy_make(false, 1, 16) : fl_decode(F_HALF, m + 1);
  if (dy_cmp(dy_sub(a, lo), dy_sub(hi, a)) >= 0) m++;
  return s | m;
}
static u64 wide_of(const FFmt& f, u64 h) { Dy d = fl_decode(F_HALF, h); u64 r = d.k == NAN_ ? f.infb() | 1ull << (f.fb - 1) : fl_encode(f, dy_abs(d)); return r | (neg_bits(F_HALF, h) ? f.sign() : 0); }
static bool same(const FFmt& f, u64 g, u64 w) { return g == w || (fl_isnan(f, g) && fl_isnan(f, w)); }
static double half_val(u64 h) { return bits_d(wide_of(F_DOUBLE, h)); }
static const FFmt& lay(int bytes) { return bytes == 8 ? F_DOUBLE : bytes == 4 ? F_SINGLE : F_HALF; }
static u64 ld(const unsigned char* p, int bytes) { u64 v = 0; memcpy(&v, p, bytes); return v; }
static void st(unsigned char* p, int bytes, u64 v) { memcpy(p, &v, bytes); }
// ---- generators
static u64 gen_near_half(Src& s, const FFmt& f) {        // a float or double around halves and their midpoints
  switch (s.draw(5)) { case 0: case 1: return gen_lay(s, f);
    case 2: { Fmt p{8, 0, WITHNAN}; return f.bits() == 64 ? d_bits((double)bits_f(gen_fbits(s, p))) : gen_fbits(s, p); }
    default: { u64 h = gen_lay(s, F_HALF), b = wide_of(f, h); int k = (int)s.draw(5), sh = f.fb - 10; if (f.fb == 10) return h;
      if (k == 0) return b; if (k == 1) return b + (1ull << (sh - 1)); if (k == 2) return b + (1ull << (sh - 1)) + (u64)s.range(-2, 2); if (k == 3) return b + (u64)s.range(-3, 3);
      double v = ldexp((double)s.range(0, 4100), -26) * (s.draw(2) ? -1 : 1); return (f.bits() == 64 ? d_bits(v) : f_bits((float)v)) + (u64)s.draw(2); } }
}
static std::vector<mwSize> gen_dims(Src& s, size_t most = 24) {
  std::vector<mwSize> d; u64 how = s.draw(160); if (how == 159) return {1 + s.draw(8), s.draw(2) ? 1 : 1 + s.draw(3), 1 + s.draw(s.draw(4) == 3 ? 9000 : 600)};   // a long array holds a few values over and over
  switch (how % 5) { case 0: d = {1, s.draw(most + 1)}; break; case 1: d = {s.draw(most + 1), 1}; break; case 2: d = {s.draw(5), s.draw(6)}; break; case 3: d = {s.draw(4), s.draw(3), s.draw(3)}; break; default: d = {1, 1}; }
  return d;
}
static size_t cap(size_t n) { return n < 61 ? n : 61; }
static std::string dims_str(const std::vector<mwSize>& d) { std::string t; for (auto x : d) t += (t.size() ? "x" : "") + std::to_string(x); return t; }
static void check_array(const std::string& what, Mex& m, mxArray* r, mxClassID c, bool cplx, const std::vector<mwSize>& d) {
  if (!r) fail("%s: no result: %s", what.c_str(), m.printed.c_str());
  if (r->c != c) fail("%s: result of class %s, expected %s", what.c_str(), class_name(r->c), class_name(c));
  if (r->d != d || r->cplx != cplx) fail("%s: the result is a %s %s array, expected %s %s", what.c_str(), r->cplx ? "complex" : "real", dims_str(r->d).c_str(), cplx ? "complex" : "real", dims_str(d).c_str());
}
static void check_after(const std::string& what, Mex& m, mxArray* a, const std::vector<unsigned char>& re, const std::vector<unsigned char>& im) {
  std::string g = m.guards(); if (g.size()) fail("%s: %s", what.c_str(), g.c_str()); if (a->re != re || a->im != im || a->gone) fail("%s: the argument was changed", what.c_str()); }
static int nparts(mxArray* a) { return a->im.size() ? 2 : 1; }
static size_t nvals(mxArray* a) { return a->n() * (a->cplx && a->inter ? 2 : 1); }
static mxArray* filled(Mex& m, mxClassID c, bool cplx, const std::vector<mwSize>& d, const std::vector<u64>& v) {
  mxArray* a = m.make(c, cplx, d, 0); int w = (int)class_size(c); size_t k = 0; for (int p = 0; p < nparts(a); p++) for (size_t i = 0; i < nvals(a); i++, k++) st(a->data(p) + i * w, w, v[k % v.size()]); return a; }
static float int_single(mxClassID c, u64 v) { switch (c) { case mxINT8_CLASS: return (float)(int8_t)v; case mxINT16_CLASS: return (float)(int16_t)v; case mxINT32_CLASS: return (float)(int32_t)v; case mxINT64_CLASS: return (float)(int64_t)v; default: return (float)v; } }
// ---- any array to half
static void tohalf(Src& s) {
  static const mxClassID C[] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS};
  u64 k = s.draw(16); mxClassID c = k < 12 ? C[k] : C[k & 1]; bool cplx = c != mxLOGICAL_CLASS && c != mxCHAR_CLASS && s.draw(2); auto d = gen_dims(s, 16); int w = (int)class_size(c); bool fl = c == mxDOUBLE_CLASS || c == mxSINGLE_CLASS;
  size_t n = 1; for (auto x : d) n *= x; if (cplx) n *= 2; n = cap(n); std::vector<u64> v(n ? n : 1); for (size_t i = 0; i < n; i++) v[i] = fl ? gen_near_half(s, lay(w)) : c == mxLOGICAL_CLASS ? s.draw(2) : (s.draw(0) >> s.draw(64)) & (w == 8 ? ~0ull : (1ull << 8 * w) - 1);
  u64 h = mix64(c * 2 + cplx) + d[0] * 100 + d[1]; for (auto x : v) h = mix64(h ^ x); s.note(n > 0, h); std::string what = strf("halfprecision of a %s %s %s array", cplx ? "complex" : "real", dims_str(d).c_str(), class_name(c)); SHOW(s, "%s, first element %#llx", what.c_str(), (ull)v[0]); s.cls(fl ? 0 : 1); if (cplx) s.cls(2);
  Mex m; mxArray* a = filled(m, c, cplx, d, v); auto re = a->re, im = a->im; m.run(mex_half, {a}, (int)s.draw(2)); check_array(what, m, m.result, mxUINT16_CLASS, cplx, a->d);
  size_t j = 0; for (int p = 0; p < nparts(a); p++) for (size_t i = 0; i < a->n(); i++, j++) { u64 x = v[j % v.size()], g = ld(m.result->data(p) + 2 * i, 2), e = fl ? half_of(lay(w), x) : half_of(F_SINGLE, f_bits(int_single(c, x)));
    if (!same(F_HALF, g, e)) fail("%s: element %zu, bits %#llx, becomes %#llx, expected %#llx", what.c_str(), j, (ull)x, (ull)g, (ull)e); if (fl && fl_decode(lay(w), x).k == FIN) { s.cls(3); if ((e & 0x7c00) == 0) s.cls(4); if ((e & 0x7fff) == 0x7c00) s.cls(5); } }
  check_after(what, m, a, re, im);
}
// ---- half to any class
static void fromhalf(Src& s) {
  static const mxClassID C[] = {mxSINGLE_CLASS, mxDOUBLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxVOID_CLASS};
  bool block = !s.draw(2); u64 k = s.draw(14); mxClassID to = k < 11 ? C[k] : C[k & 1]; std::vector<mwSize> d; std::vector<u64> v; bool cplx;
  if (block) { u64 b = s.draw(256); cplx = false; d = {16, 16}; for (int i = 0; i < 256; i++) v.push_back(b * 256 + i); } else { cplx = s.draw(2); d = gen_dims(s, 20); size_t n = 1; for (auto x : d) n *= x; if (cplx) n *= 2; n = cap(n); for (size_t i = 0; i < n; i++) v.push_back(gen_lay(s, F_HALF)); if (!n) v.push_back(0); }
  mxClassID in = s.draw(2) ? mxINT16_CLASS : mxUINT16_CLASS; bool disp = to == mxVOID_CLASS; const char* name = disp ? "disp" : class_name(to); int w = (int)class_size(to);
  u64 h = mix64(to * 4 + cplx * 2 + (in == mxINT16_CLASS)) + d[0] * 100 + d[1]; for (auto x : v) h = mix64(h ^ x); s.note(true, h); std::string what = strf("halfprecision(%s %s %s array, '%s')", cplx ? "complex" : "real", dims_str(d).c_str(), class_name(in), name); SHOW(s, "%s, first half %#llx", what.c_str(), (ull)v[0]); s.cls(disp ? 2 : to == mxSINGLE_CLASS || to == mxDOUBLE_CLASS ? 0 : 1); if (cplx) s.cls(3);
  Mex m; mxArray* a = filled(m, in, cplx, d, v); auto re = a->re, im = a->im; m.run(mex_half, {a, m.text(name)}, disp ? 0 : (int)s.draw(2));
  mxArray* r = m.result; if (disp) { if (m.error || r) fail("%s: %s", what.c_str(), m.error ? m.printed.c_str() : "returns something"); if (m.calls.empty() || m.calls.back() != "format longG") fail("%s: the display format is not restored", what.c_str()); r = m.shown; to = mxSINGLE_CLASS; w = 4; }
  check_array(what, m, r, to, cplx, a->d); size_t j = 0;
  for (int p = 0; p < nparts(a); p++) for (size_t i = 0; i < a->n(); i++, j++) { u64 x = v[j % v.size()], g = ld(r->data(p) + i * w, w), e;
    if (to == mxSINGLE_CLASS || to == mxDOUBLE_CLASS) e = wide_of(lay(w), x); else { double q = half_val(x); bool sg = to == mxINT8_CLASS || to == mxINT16_CLASS || to == mxINT32_CLASS || to == mxINT64_CLASS; int bits = 8 * w; double top = ldexp(1, sg ? bits - 1 : bits), bot = sg ? -top : 0; u64 mask = bits == 64 ? ~0ull : (1ull << bits) - 1, big = sg ? mask >> 1 : mask; q = round(q); e = q != q ? 0 : q >= top ? big : q <= bot ? (sg ? big + 1 : 0) : (u64)(i64)q & mask; if (q == q && q > 0 && e == 0) fail("oracle"); }
    bool fl = to == mxSINGLE_CLASS || to == mxDOUBLE_CLASS; if (fl ? !same(lay(w), g, e) : g != e) fail("%s: half %#llx becomes %#llx, expected %#llx", what.c_str(), (ull)x, (ull)g, (ull)e); }
  check_after(what, m, a, re, im);
}
// ---- the four conversion routines for other programs
static void raw(Src& s) {
  u64 mode = s.draw(4); int dir = (int)s.draw(2), w = s.draw(2) ? 8 : 4; std::vector<u64> v;      // dir 1: half to float or double
  if (mode == 0) { u64 b = s.draw(65536); static const u64 L[] = {0, 1, 0xfff, 0x1000, 0x1001, 0x1fff, 0x2000, 0x2fff, 0x3000, 0x3001, 0x7fff, 0x8000, 0x8001, 0xbfff, 0xf000, 0xffff};
    if (dir) for (int i = 0; i < 16; i++) v.push_back((b + i) & 0xffff); else for (u64 l : L) { u64 x = b << 16 | l; v.push_back(w == 4 ? x : d_bits((double)bits_f((uint32_t)x)) ^ (l & 1)); if (w == 8) v.push_back(b << 48 | l << 26 | (l & 3)); } }
  else { int n = (int)s.draw(25); for (int i = 0; i < n; i++) v.push_back(dir ? gen_lay(s, F_HALF) : gen_near_half(s, lay(w))); }
  if (v.size() > 2 && mode == 3 && s.draw(40) == 39) for (size_t m = s.draw(6000), k = v.size(); v.size() < m;) v.push_back(v[v.size() - k]);   // a long array
  int from = dir ? 2 : w, to = dir ? w : 2; size_t n = v.size(), off = s.draw(3) * 8; int null = s.draw(20) == 19 ? 1 + (int)s.draw(3) : 0; u64 h = mix64(dir * 16 + w + null * 64); for (u64 x : v) h = mix64(h ^ x); s.note(n > 0, h); const char* name = dir ? w == 4 ? "halfp2singles" : "halfp2doubles" : w == 4 ? "singles2halfp" : "doubles2halfp"; SHOW(s, "%s of %zu elements, first %#llx%s", name, n, n ? (ull)v[0] : 0, null ? ", null pointer" : "");
  size_t room = n * 8 + 256; std::vector<unsigned char> S(room + 16, 0x5c), D(room + 16, (unsigned char)s.draw(256)); auto W = D; unsigned char *src = S.data() + (-(uintptr_t)S.data() & 15), *dst = D.data() + (-(uintptr_t)D.data() & 15), *was = W.data(); for (size_t i = 0; i < n; i++) st(src + off + i * from, from, v[i]);
  auto f = dir ? w == 4 ? ieee_halfp2singles : ieee_halfp2doubles : w == 4 ? ieee_singles2halfp : ieee_doubles2halfp; int rc = f(null & 1 ? nullptr : dst + 64, null & 2 ? nullptr : src + off, (int)n); if (rc) fail("%s returns %d", name, rc); if (null) { n = 0; s.cls(1); } s.cls(0);
  for (size_t i = 0; i < n; i++) { u64 g = ld(dst + 64 + i * to, to), e = dir ? wide_of(lay(w), v[i]) : half_of(lay(w), v[i]); if (!same(lay(to), g, e)) fail("%s: element %zu, bits %#llx, becomes %#llx, expected %#llx", name, i, (ull)v[i], (ull)g, (ull)e); }
  if (memcmp(dst, was, 64) || memcmp(dst + 64 + n * to, was + 64 + n * to, room - 64 - n * to)) fail("%s of %zu elements writes outside them", name, n);
}
// ---- 8-bit posits
static i64 p8(u64 b) { return (i64)(int8_t)b; }
static void posits(Src& s) {
  static const mxClassID C[] = {mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT16_CLASS, mxUINT16_CLASS}; u64 k = s.draw(13); bool block = !s.draw(2); std::vector<mwSize> d; std::vector<u64> v, u; bool cplx = false; std::string what; mxClassID c = C[k & 3]; int w = (int)class_size(c);
  bool from = k < 4, to = k >= 4 && k < 8, inv = k == 8; char op = "+-*/"[k >= 9 ? k - 9 : 0];
  if (block) { u64 b = s.draw(65536); d = {1, from ? 64u : 256u}; if (from) for (int i = 0; i < 64; i++) v.push_back(w == 2 ? (b * 64 + i) & 0xffff : w == 4 ? b << 16 | (u64)i << 10 : b << 48 | (u64)i << 42); else for (int i = 0; i < 256; i++) { v.push_back(i); u.push_back(b & 255); } }
  else { cplx = (from || to) && s.draw(3) == 2; d = gen_dims(s, 16); size_t n = 1; for (auto x : d) n *= x; if (cplx) n *= 2; n = cap(n); for (size_t i = 0; i < n; i++) if (from) v.push_back(w == 2 ? gen_lay(s, F_HALF) : gen_near_half(s, lay(w))); else { v.push_back((u64)gen_pat(s, P8) & 255); u.push_back((u64)(k >= 9 ? gen_rel(s, P8, p8(v[i]), 16) : 0) & 255); } if (!n) { v.push_back(0); u.push_back(0); } }
  u64 h = mix64(k * 2 + cplx) + d[0] * 100 + d[1]; for (u64 x : v) h = mix64(h ^ x); for (u64 x : u) h = mix64(h ^ x); s.note(v.size() > 1, h); s.cls(from ? 0 : to ? 1 : inv ? 2 : 3); if (cplx) s.cls(4);
  what = strf(from ? "floatTop8 of a %s %s %s array" : to ? "p8Tofloat of a %s %s array to %s" : inv ? "p8unop of a %s %s array, 'inv'%s" : "p8binop of %s %s arrays, '%s'", cplx ? "complex" : "real", dims_str(d).c_str(), from || to ? class_name(c) : inv ? "" : std::string(1, op).c_str()); SHOW(s, "%s, first element %#llx%s", what.c_str(), (ull)v[0], u.size() ? strf(" and %#llx", (ull)u[0]).c_str() : "");
  Mex m; m.inter = true; mxArray* a = filled(m, from ? c : mxINT8_CLASS, cplx, d, v); auto re = a->re, im = a->im; std::vector<mxArray*> args = {a}; MexFn fn = from ? mex_top8 : to ? mex_tofloat : inv ? mex_unop : mex_binop;
  if (to) args.push_back(m.make(c, false, {s.draw(3), 1}, 0)); if (inv) args.push_back(m.text("inv")); if (k >= 9) { args.push_back(filled(m, mxINT8_CLASS, false, d, u)); args.push_back(m.text(std::string(1, op))); }
  m.run(fn, args, (int)s.draw(2)); check_array(what, m, m.result, to ? c : mxINT8_CLASS, cplx, a->d);
  for (size_t i = 0; i < nvals(a); i++) { u64 x = v[i % v.size()];
    if (from) { Dy q = fl_decode(lay(w), x); i64 e = ref_encode(P8, q), g = p8(ld(m.result->data(0) + i, 1)); if (g != e) fail("%s: element %zu, bits %#llx = %s, becomes posit %lld, expected %lld", what.c_str(), i, (ull)x, dy_str(q).c_str(), (long long)g, (long long)e); continue; }
    Dy q = ref_decode(P8, p8(x));
    if (to) { u64 g = ld(m.result->data(0) + i * w, w), e = fl_encode(lay(w), q); if (!same(lay(w), g, e)) fail("%s: posit %lld = %s becomes %#llx, expected %#llx", what.c_str(), (long long)p8(x), dy_str(q).c_str(), (ull)g, (ull)e); continue; }
    i64 g = p8(ld(m.result->data(0) + i, 1)); Dy y = inv ? q : ref_decode(P8, p8(u[i % u.size()])), e; bool faithful = false;
    if (inv) { e = q.k == ZERO ? dy_inf(false) : sp_div(dy_from_int(1), q); } else switch (op) { case '+': e = sp_add(q, y, false); faithful = q.k == FIN && y.k == FIN && q.neg != y.neg; break; case '-': e = sp_add(q, dy_neg(y), false); faithful = q.k == FIN && y.k == FIN; break; case '*': e = sp_mul(q, y); break; default: e = sp_div(q, y); }
    i64 want = ref_encode(P8, e); if (faithful ? !ref_faithful(P8, e, g) : g != want) fail("%s: element %zu, posit %lld and %lld, is %lld, expected %lld", what.c_str(), i, (long long)p8(x), (long long)(inv ? 0 : p8(u[i % u.size()])), (long long)g, (long long)want); }
  check_after(what, m, a, re, im);
}
// ---- calls that have no meaning give a message and no result
static void refuse(Src& s) {
  Mex m; auto A = [&](mxClassID c, size_t n = 3, bool x = false) { return m.make(c, x, {1, n}, 0); }; static const mxClassID ALL[] = {mxLOGICAL_CLASS, mxCHAR_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS};
  auto other = [&](std::vector<mxClassID> good) { for (;;) { mxClassID c = ALL[s.draw(12)]; bool g = false; for (auto x : good) g |= x == c; if (!g) return c; c = good[0]; if (s.replay) { for (auto z : ALL) { g = false; for (auto x : good) g |= x == z; if (!g) return z; } } } };
  auto word = [&](std::vector<std::string> good) { for (int t = 0;; t++) { std::string w; static const char P[] = "+-*/invsgledoubpay8 X"; int n = (int)s.draw(5); for (int i = 0; i < n; i++) w += P[s.draw(sizeof P - 1)]; if (n == 4) w = good[s.draw(good.size())] + w.substr(0, 1); if (n == 3) { w = good[s.draw(good.size())]; w.pop_back(); } bool g = false; for (auto& x : good) g |= x == w; if (!g) return w; if (t > 5) return std::string("?"); } };
  m.inter = true; const char* name = ""; std::string how; std::vector<mxArray*> a; int nlhs = 1; MexFn fn = mex_half; u64 f = s.draw(5), k = s.draw(6); mxArray* op = m.text("*");
  auto count = [&](std::vector<mxArray*> full, int least) { a = full; if (s.draw(2) && least > 0) a.resize(s.draw(least)); else a.push_back(A(mxINT8_CLASS)); how = strf("%zu arguments", a.size()); };
  switch (f) {
    case 0: m.inter = false; name = "halfprecision"; if (k == 0) count({A(mxUINT16_CLASS), m.text("single")}, 1); else if (k == 1) { a = {A(mxDOUBLE_CLASS)}; nlhs = 2; how = "two results"; } else if (k == 2) { a = {A(mxUINT16_CLASS), A(other({mxCHAR_CLASS}))}; how = "a class name that is no text"; } else if (k == 3) { mxClassID c = other({mxINT16_CLASS, mxUINT16_CLASS}); a = {A(c), m.text("single")}; how = strf("conversion from %s", class_name(c)); } else if (k == 4) { std::string w = word({"double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "char", "logical", "disp"}); a = {A(mxUINT16_CLASS), m.text(w)}; how = "class '" + w + "'"; } else { static const mxClassID B[] = {mxCELL_CLASS, mxSTRUCT_CLASS, mxFUNCTION_CLASS, mxUNKNOWN_CLASS}; mxClassID c = B[s.draw(4)]; a = {A(c)}; how = class_name(c); } break;
    case 1: name = "floatTop8"; fn = mex_top8; if (k < 2) count({A(mxDOUBLE_CLASS)}, 1); else if (k == 2) { a = {A(mxDOUBLE_CLASS)}; nlhs = 2; how = "two results"; } else { mxClassID c = other({mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT16_CLASS, mxUINT16_CLASS}); a = {A(c)}; how = class_name(c); } break;
    case 2: name = "p8Tofloat"; fn = mex_tofloat; if (k < 2) count({A(mxINT8_CLASS), A(mxSINGLE_CLASS)}, 2); else if (k == 2) { a = {A(mxINT8_CLASS), A(mxSINGLE_CLASS)}; nlhs = 2; how = "two results"; } else if (k == 3) { mxClassID c = other({mxINT8_CLASS}); a = {A(c), A(mxSINGLE_CLASS)}; how = strf("conversion from %s", class_name(c)); } else { mxClassID c = other({mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT16_CLASS, mxUINT16_CLASS}); a = {A(mxINT8_CLASS), A(c)}; how = strf("conversion to %s", class_name(c)); } break;
    case 3: name = "p8binop"; fn = mex_binop; if (k == 0) count({A(mxINT8_CLASS), A(mxINT8_CLASS), op}, 3); else if (k == 1) { a = {A(mxINT8_CLASS), A(mxINT8_CLASS), op}; nlhs = 2; how = "two results"; } else if (k == 2) { mxClassID c = other({mxINT8_CLASS}); int w = (int)s.draw(3); a = {A(w == 1 ? mxINT8_CLASS : c), A(w == 0 ? mxINT8_CLASS : c), op}; how = strf("operand %d of class %s", w, class_name(c)); } else if (k == 3) { a = {A(mxINT8_CLASS), A(mxINT8_CLASS), A(other({mxCHAR_CLASS}))}; how = "an operation that is no text"; }
      else if (k == 4) { size_t x = s.draw(6), y = s.draw(6); bool cx = s.draw(2), cy = s.draw(2); if (x == y && cx == cy) y++; a = {A(mxINT8_CLASS, x, cx), A(mxINT8_CLASS, y, cy), op}; how = strf("%zu %s and %zu %s elements", x, cx ? "complex" : "real", y, cy ? "complex" : "real"); } else { std::string w = word({"+", "-", "*", "/"}); a = {A(mxINT8_CLASS), A(mxINT8_CLASS), m.text(w)}; how = "operation '" + w + "'"; } break;
    default: name = "p8unop"; fn = mex_unop; if (k < 2) count({A(mxINT8_CLASS), m.text("inv")}, 2); else if (k == 2) { a = {A(mxINT8_CLASS), m.text("inv")}; nlhs = 2; how = "two results"; } else if (k == 3) { mxClassID c = other({mxINT8_CLASS}); a = {A(c), m.text("inv")}; how = strf("an operand of class %s", class_name(c)); } else if (k == 4) { a = {A(mxINT8_CLASS), A(other({mxCHAR_CLASS}))}; how = "an operation that is no text"; } else { std::string w = word({"inv"}); a = {A(mxINT8_CLASS), m.text(w)}; how = "operation '" + w + "'"; } break;
  }
  u64 h = f * 8 + k; for (char ch : how) h = mix64(h ^ (unsigned char)ch); s.note(true, h); s.cls((int)f); SHOW(s, "%s with %s", name, how.c_str()); m.run(fn, a, nlhs);
  if (m.result) fail("%s with %s returns a result", name, how.c_str()); if (m.printed.empty()) fail("%s with %s returns nothing and says nothing", name, how.c_str()); std::string g = m.guards(); if (g.size()) fail("%s with %s: %s", name, how.c_str(), g.c_str());
}
CHECK_MAIN("P34", "the array is not empty (8-bit posits: more than one element); every refused call counts") {
  std::vector<Exh> fh, rw, ps;
  for (u64 k = 0; k < 11; k++) fh.push_back(Exh{256, [k](u64 b, std::vector<u64>& o) { o = {0, k, b}; }});
  for (u64 q = 0; q < 4; q++) rw.push_back(Exh{65536, [q](u64 b, std::vector<u64>& o) { o = {0, q & 1, q >> 1, b}; }});
  for (u64 k = 0; k < 13; k++) ps.push_back(Exh{k < 2 ? 65536u : k < 4 ? 1024u : 256u, [k](u64 b, std::vector<u64>& o) { o = {k, 0, b}; }});
  c.bodies.push_back(Body{"to-half", tohalf, 400, 20000, {}, {"float classes", "other classes", "complex", "finite", "subnormal or zero half", "overflow"}});
  c.bodies.push_back(Body{"from-half", fromhalf, 200, 5000, fh, {"float classes", "integer classes", "display", "complex"}});
  c.bodies.push_back(Body{"routines", raw, 400, 20000, rw, {"calls", "null pointer"}});
  c.bodies.push_back(Body{"posits", posits, 300, 10000, ps, {"from float", "to float", "reciprocal", "operation", "complex"}});
  c.bodies.push_back(Body{"refused", refuse, 60, 2000, {}, {"halfprecision", "floatTop8", "p8Tofloat", "p8binop", "p8unop"}});
}
