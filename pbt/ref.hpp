// Reference model: posits, IEEE-style layouts and exact dyadic numbers.
// Written from the definition of the formats (bit strings and integers); shares no code with /repo.
#pragma once
#include "names.hpp"
#include <cstdint>
#include <cstring>
#include <string>
#include <cmath>
#include <cstdio>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef int64_t i64;

enum Kind { FIN = 0, INF = 1, NAN_ = 2, ZERO = 3 };

// value = (-1)^neg * m/2^63 * 2^e with bit 63 of m set (FIN). sticky: the true magnitude is a bit larger.
struct Dy {
  Kind k = ZERO;
  bool neg = false;
  u64 m = 0;
  i64 e = 0;
  bool sticky = false;
};

inline Dy dy_zero() { return Dy(); }
inline Dy dy_nan() { Dy d; d.k = NAN_; return d; }
inline Dy dy_inf(bool n) { Dy d; d.k = INF; d.neg = n; return d; }
inline Dy dy_make(bool neg, u64 mant, i64 exp0) {  // mant * 2^exp0
  Dy d;
  if (!mant) return d;
  int z = __builtin_clzll(mant);
  d.k = FIN; d.neg = neg; d.m = mant << z; d.e = exp0 + 63 - z;
  return d;
}
inline Dy dy_from128(bool neg, u128 x, i64 exp0, bool sticky) {  // x * 2^exp0
  Dy d;
  if (!x) { if (sticky) { d.k = FIN; d.neg = neg; d.m = 1ull << 63; d.e = exp0 - 1; d.sticky = true; } return d; }
  int z = (u64)(x >> 64) ? __builtin_clzll((u64)(x >> 64)) : 64 + __builtin_clzll((u64)x);
  x <<= z;
  d.k = FIN; d.neg = neg; d.m = (u64)(x >> 64); d.e = exp0 + 127 - z;
  d.sticky = sticky || (u64)x != 0;
  return d;
}
inline Dy dy_neg(Dy a) { if (a.k == FIN || a.k == INF) a.neg = !a.neg; return a; }
inline Dy dy_abs(Dy a) { a.neg = false; return a; }
inline Dy dy_scale(Dy a, i64 k) { if (a.k == FIN) a.e += k; return a; }
inline bool dy_same(const Dy& a, const Dy& b) {
  if (a.k != b.k) return false;
  if (a.k == INF) return a.neg == b.neg;
  if (a.k != FIN) return true;
  return a.neg == b.neg && a.m == b.m && a.e == b.e && a.sticky == b.sticky;
}
// magnitude compare of finite/zero exact numbers
inline int dy_cmpmag(const Dy& a, const Dy& b) {
  if (a.k == ZERO || b.k == ZERO) return (a.k == ZERO ? 0 : 1) - (b.k == ZERO ? 0 : 1);
  if (a.e != b.e) return a.e < b.e ? -1 : 1;
  if (a.m != b.m) return a.m < b.m ? -1 : 1;
  return (int)a.sticky - (int)b.sticky;
}
inline int dy_sgn(const Dy& a) { return a.k == ZERO ? 0 : a.neg ? -1 : 1; }
// numeric compare; infinities allowed, NaN not
inline int dy_cmp(const Dy& a, const Dy& b) {
  int sa = dy_sgn(a), sb = dy_sgn(b);
  if (sa != sb) return sa < sb ? -1 : 1;
  if (sa == 0) return 0;
  int r;
  if (a.k == INF || b.k == INF) r = (a.k == INF) - (b.k == INF);
  else r = dy_cmpmag(a, b);
  return sa * r;
}
// exact finite arithmetic (operands exact, i.e. not sticky)
inline Dy dy_mul(const Dy& a, const Dy& b) {
  if (a.k == ZERO || b.k == ZERO) return dy_zero();
  return dy_from128(a.neg != b.neg, (u128)a.m * b.m, a.e + b.e - 126, false);
}
inline Dy dy_div(const Dy& a, const Dy& b) {
  if (a.k == ZERO) return dy_zero();
  u128 n = (u128)a.m << 64;
  u128 q = n / b.m, r = n % b.m;
  return dy_from128(a.neg != b.neg, q, a.e - b.e - 64, r != 0);
}
inline Dy dy_add(const Dy& a0, const Dy& b0) {
  if (a0.k == ZERO) return b0;
  if (b0.k == ZERO) return a0;
  Dy a = a0, b = b0;
  if (dy_cmpmag(a, b) < 0) std::swap(a, b);
  i64 d = a.e - b.e;
  u128 A = (u128)a.m << 62, B;
  bool st;
  if (d >= 126) { B = 0; st = true; }
  else { B = ((u128)b.m << 62); st = d && (B & (((u128)1 << d) - 1)) != 0; B >>= d; }
  i64 e0 = a.e - 125;
  if (a.neg == b.neg) return dy_from128(a.neg, A + B, e0, st);
  if (!st) return dy_from128(a.neg, A - B, e0, false);
  return dy_from128(a.neg, A - B - 1, e0, true);
}
inline Dy dy_sub(const Dy& a, const Dy& b) { return dy_add(a, dy_neg(b)); }
inline Dy dy_from_int(i64 v) { return dy_make(v < 0, v < 0 ? 0 - (u64)v : (u64)v, 0); }
inline Dy dy_from_double(double x) {
  if (x != x) return dy_nan();
  if (std::isinf(x)) return dy_inf(x < 0);
  if (x == 0) return dy_zero();
  int e; double f = std::frexp(std::fabs(x), &e);        // f in [0.5,1)
  return dy_make(x < 0, (u64)std::ldexp(f, 53), e - 53);
}
// keep only the top `bits` significant bits (toward zero); tells whether anything was dropped
inline Dy dy_chop(Dy a, int bits, bool* lost = nullptr) {
  if (a.k != FIN) return a;
  u64 keep = bits >= 64 ? ~0ull : ~((1ull << (64 - bits)) - 1);
  bool l = (a.m & ~keep) != 0 || a.sticky;
  a.m &= keep; a.sticky = false;
  if (lost) *lost = l;
  return a;
}
// truncate toward zero to a multiple of 2^q
inline Dy dy_chop_grid(Dy a, i64 q, bool* lost = nullptr) {
  if (a.k != FIN) return a;
  i64 bits = a.e - q + 1;
  if (bits <= 0) { if (lost) *lost = true; return dy_zero(); }
  return dy_chop(a, bits > 64 ? 64 : (int)bits, lost);
}
inline std::string dy_str(const Dy& a) {
  char b[128];
  switch (a.k) {
    case ZERO: return "0";
    case NAN_: return "NaN";
    case INF: return a.neg ? "-Inf" : "+Inf";
    default: snprintf(b, sizeof b, "%c0x%llxp%lld%s(~%.17g)", a.neg ? '-' : '+', (unsigned long long)a.m, (long long)(a.e - 63),
                      a.sticky ? "+" : "", std::ldexp((double)a.m, (int)(a.e - 63 > 4000 ? 4000 : a.e - 63 < -4000 ? -4000 : a.e - 63)) * (a.neg ? -1 : 1));
  }
  return b;
}

// ---------------------------------------------------------------- posit format
enum Spec { WITHNAN = 0, WITHINF = 1, WITHNANINF = 2 };
struct Fmt {
  int N, es; Spec spec;
  u64 mask() const { return N == 64 ? ~0ull : (1ull << N) - 1; }
  i64 top() const { return -(i64)(1ull << (N - 1)); }            // 100..0 sign extended (N=64: INT64_MIN)
  i64 maxpos() const { return (i64)((1ull << (N - 1)) - 1) - (spec == WITHNANINF ? 1 : 0); }
  i64 lowest() const { return -maxpos(); }
  bool canonical(i64 v) const { return N == 64 || (v >= -(i64)(1ll << (N - 1)) && v < (i64)(1ll << (N - 1))); }
  i64 sext(u64 p) const { return N == 64 ? (i64)p : (i64)(p << (64 - N)) >> (64 - N); }
  i64 pnan() const { return top(); }                               // NaN pattern, or the infinity of WITHINF
  i64 pinf(bool neg) const { return spec == WITHNANINF ? (neg ? -(maxpos() + 1) : maxpos() + 1) : top(); }
};

inline Kind ref_kind(const Fmt& f, i64 v) {
  if (v == 0) return ZERO;
  if (v == f.top()) return f.spec == WITHINF ? INF : NAN_;
  if (f.spec == WITHNANINF && (v == f.maxpos() + 1 || v == -(f.maxpos() + 1))) return INF;
  return FIN;
}
struct Fields { int k, rs, es, fs; u64 exp; u64 frac; /* fs bits, right aligned */ i64 exponent; };
// decode the magnitude of a finite pattern by walking its bits
inline Fields ref_fields(const Fmt& f, i64 v) {
  u64 u = v < 0 ? 0 - (u64)v : (u64)v;
  int pos = f.N - 2;
  int first = (u >> pos) & 1, run = 0;
  while (pos >= 0 && (int)((u >> pos) & 1) == first) { run++; pos--; }
  bool term = pos >= 0;
  if (term) pos--;
  Fields r;
  r.k = first ? run - 1 : -run;
  r.rs = run + (term ? 1 : 0);
  int got = 0; u64 ex = 0;
  while (got < f.es && pos >= 0) { ex = ex << 1 | ((u >> pos) & 1); pos--; got++; }
  r.es = got;
  if (got < f.es) ex <<= (f.es - got);
  r.exp = ex;
  r.fs = pos + 1;
  r.frac = r.fs > 0 ? u & ((1ull << r.fs) - 1) : 0;
  r.exponent = (i64)r.k * (i64)(1ll << f.es) + (i64)ex;
  return r;
}
inline Dy ref_decode(const Fmt& f, i64 v) {
  switch (ref_kind(f, v)) {
    case ZERO: return dy_zero();
    case NAN_: return dy_nan();
    case INF: return dy_inf(v < 0);
    default: break;
  }
  Fields r = ref_fields(f, v);
  return dy_make(v < 0, (1ull << r.fs) | r.frac, r.exponent - r.fs);
}
// magnitude -> pattern, bits appended one by one and cut after N-1 of them
inline i64 ref_encode_mag(const Fmt& f, u64 m, i64 e) {
  i64 scale = 1ll << f.es;
  i64 k = e >= 0 ? e / scale : -((-e + scale - 1) / scale);
  i64 r = e - k * scale;
  if (k > f.N) return f.maxpos();
  if (k < -f.N) return 1;
  u64 out = 0; int left = f.N - 1;
#define PUSH(b) do { if (left > 0) { out = out << 1 | (u64)(b); left--; } } while (0)
  if (k >= 0) { for (i64 i = 0; i <= k; i++) PUSH(1); PUSH(0); }
  else { for (i64 i = 0; i < -k; i++) PUSH(0); PUSH(1); }
  for (int i = f.es - 1; i >= 0; i--) PUSH((r >> i) & 1);
  for (int i = 62; i >= 0 && left > 0; i--) PUSH((m >> i) & 1);
  while (left > 0) PUSH(0);
#undef PUSH
  i64 p = (i64)out;
  if (p > f.maxpos()) p = f.maxpos();
  if (p == 0) p = 1;
  return p;
}
// truncate toward zero with saturation; specials follow the format's convention
inline i64 ref_encode(const Fmt& f, const Dy& d) {
  switch (d.k) {
    case ZERO: return 0;
    case NAN_: return f.pnan();
    case INF: return f.pinf(d.neg);
    default: break;
  }
  i64 p = ref_encode_mag(f, d.m, d.e);
  return d.neg ? -p : p;
}
inline bool ref_exact(const Fmt& f, const Dy& d) {  // is d exactly a value of the format?
  if (d.k == ZERO) return true;
  if (d.k != FIN || d.sticky) return false;
  return dy_same(ref_decode(f, ref_encode(f, d)), d);
}
// the other bracket: next pattern away from zero (or saturated)
inline i64 ref_away(const Fmt& f, i64 p) {
  if (p > 0) return p >= f.maxpos() ? f.maxpos() : p + 1;
  return p <= f.lowest() ? f.lowest() : p - 1;
}
// p is one of the two posits bracketing the exact value d
inline bool ref_faithful(const Fmt& f, const Dy& d, i64 p) {
  i64 t = ref_encode(f, d);
  if (p == t) return true;
  if (d.k != FIN || ref_exact(f, d)) return false;
  if (dy_cmpmag(d, ref_decode(f, f.maxpos())) >= 0) return false;   // beyond the range: saturate
  if (dy_cmpmag(d, ref_decode(f, 1)) < 0) return false;             // below the range: minpos, which is t
  return p == ref_away(f, t);
}

// special-value arithmetic on decoded operands: returns true and sets r when a special/zero rule decides.
// Infinities are signed; a single unsigned infinity arrives with an arbitrary sign.
inline Dy sp_add(const Dy& a, const Dy& b, bool unsignedinf) {
  if (a.k == NAN_ || b.k == NAN_) return dy_nan();
  if (a.k == INF && b.k == INF) return unsignedinf ? dy_inf(a.neg) : a.neg == b.neg ? a : dy_nan();
  if (a.k == INF) return a;
  if (b.k == INF) return b;
  return dy_add(a, b);
}
inline Dy sp_mul(const Dy& a, const Dy& b) {
  if (a.k == NAN_ || b.k == NAN_) return dy_nan();
  if (a.k == INF || b.k == INF) return (a.k == ZERO || b.k == ZERO) ? dy_nan() : dy_inf(a.neg != b.neg);
  return dy_mul(a, b);
}
inline Dy sp_div(const Dy& a, const Dy& b) {
  if (a.k == NAN_ || b.k == NAN_) return dy_nan();
  if (a.k == INF) return b.k == INF ? dy_nan() : dy_inf(b.k == ZERO ? a.neg : a.neg != b.neg);
  if (b.k == INF) return dy_zero();
  if (b.k == ZERO) return a.k == ZERO ? dy_nan() : dy_inf(a.neg);
  return dy_div(a, b);
}

// ---------------------------------------------------------------- IEEE-style layouts
struct FFmt { int eb, fb; bool denorm; int bits() const { return eb + fb + 1; } i64 bias() const { return (1ll << (eb - 1)) - 1; }
  u64 emask() const { return (1ull << eb) - 1; } u64 fmask() const { return (1ull << fb) - 1; } u64 sign() const { return 1ull << (eb + fb); }
  u64 maxfin() const { return ((emask() - 1) << fb) | fmask(); } u64 infb() const { return emask() << fb; } };
inline Dy fl_decode(const FFmt& f, u64 b) {
  bool neg = (b & f.sign()) != 0; u64 e = (b >> f.fb) & f.emask(), fr = b & f.fmask();
  if (e == f.emask()) return fr ? dy_nan() : dy_inf(neg);
  if (e == 0) return !fr || !f.denorm ? dy_zero() : dy_make(neg, fr, 1 - f.bias() - f.fb);
  return dy_make(neg, fr | (1ull << f.fb), (i64)e - f.bias() - f.fb);
}
inline bool fl_isnan(const FFmt& f, u64 b) { return ((b >> f.fb) & f.emask()) == f.emask() && (b & f.fmask()); }
// truncation toward zero, overflow to the largest finite; zero loses its sign. NaN -> any NaN (caller tests)
inline u64 fl_encode(const FFmt& f, const Dy& d) {
  u64 s = d.neg ? f.sign() : 0;
  if (d.k == ZERO) return 0;
  if (d.k == NAN_) return f.infb() | (1ull << (f.fb - 1));
  if (d.k == INF) return s | f.infb();
  i64 e = d.e + f.bias();
  if (e > (i64)f.emask() - 1) return s | f.maxfin();
  if (e >= 1) return s | ((u64)e << f.fb) | ((d.m << 1) >> (64 - f.fb));
  if (!f.denorm) return 0;
  i64 sh = 63 - f.fb + (1 - e);      // significand 1.x at bit 63 shifted to the subnormal grid
  u64 fr = sh > 63 ? 0 : d.m >> sh;
  return fr ? s | fr : 0;
}
static const FFmt F_SINGLE{8, 23, true}, F_DOUBLE{11, 52, true}, F_HALF{5, 10, true}, F_MICRO{5, 2, true}, F_ALT{8, 7, true}, F_BF16{8, 7, false};
inline float bits_f(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
inline double bits_d(u64 b) { double f; memcpy(&f, &b, 8); return f; }
inline uint32_t f_bits(float f) { uint32_t b; memcpy(&b, &f, 4); return b; }
inline u64 d_bits(double f) { u64 b; memcpy(&b, &f, 8); return b; }
