#include "anyfloat.hpp"
#include "afl.hpp"
std::vector<IAny*> g_anys;
template <class A, class V, bool D> struct AImpl : IAny {
  using T = typename A::T; using UT = typename A::UnpackedT;
  AImpl(const char* n) { f = FFmt{A::vexpbits, A::vfractionbits, D}; dbl = sizeof(typename A::FFT) == 8; W = sizeof(T) * 8; name = n; }
  static A mk(u64 v) { return A(typename A::DeepInit(), (T)v); }
  static u64 r(const A& a) { return (u64)a.v; }
  u64 from_f(float x) override { return r(fresh<A>(x)); } u64 from_d(double x) override { return r(fresh<A>(x)); } u64 from_i(int x) override { return r(fresh<A>(x)); }
  static UT in(const Full& x) { UT u; u.type = x.type == FIN ? UT::Regular : x.type == INF ? UT::Infinity : x.type == NAN_ ? UT::NaN : UT::Zero; u.negativeSign = x.neg; u.exponent = (int)x.exp; u.fraction = (T)(x.frac >> (64 - sizeof(T) * 8)); return u; }
  static Full out(const UT& u) { return Full{u.type == UT::Regular ? FIN : u.type == UT::Infinity ? INF : u.type == UT::NaN ? NAN_ : ZERO, u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - sizeof(T) * 8)}; }
  u64 from_u(const Full& x) override { return r(fresh<A>(in(x))); }
  float to_f(u64 v) override { const A a = mk(v); return (float)a; } double to_d(u64 v) override { const A a = mk(v); return (double)a; } int to_i(u64 v) override { const A a = mk(v); return (int)a; }
  Full to_u(u64 v, int how) override { const A a = mk(v); if (how) { UT u = a; return out(u); } return out(a.unpack()); }
  u64 bin(int op, u64 x, u64 y) override {
    A a = mk(x), b = mk(y);
    switch (op) { case 0: return r(a + b); case 1: return r(a - b); case 2: return r(a * b); case 3: return r(a / b); case 4: a += b; return r(a); case 5: a *= b; return r(a);
      case 6: return r(std::min(a, b)); default: return r(std::max(a, b)); }
  }
  template <class Q> static auto sabs(const Q& a, int) -> decltype(std::abs(a), u64()) { return r(std::abs(a)); }
  u64 un(int op, u64 x) override { const A a = mk(x); switch (op) { case 0: return r(a.half()); case 1: return r(a.twice()); case 2: return r(a.inv()); case 3: return r(~a); case 4: return r(a.neg()); case 5: return r(-a); case 6: return r(a.abs()); default: return D ? sabs_(a, std::integral_constant<bool, D>()) : r(a.abs()); } }
  static u64 sabs_(const A& a, std::true_type) { return r(std::abs(a)); } static u64 sabs_(const A& a, std::false_type) { return 0; }
  u64 fma3(u64 x, u64 y, u64 z) override { return r(fma(mk(x), mk(y), mk(z))); }
  int cmp(u64 x, u64 y) override { A a = mk(x), b = mk(y); return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
  int preds(u64 x) override { A a = mk(x); return a.isnegative() | a.iszero() << 1 | a.hasNaN() << 2; }
  u64 cst(int i) override { switch (i) { case 0: return r(A::zero()); case 1: return r(A::inf()); case 2: return r(A::pinf()); case 3: return r(A::ninf()); case 4: return r(A::max()); case 5: return r(A::min()); case 6: return r(A::lowest()); case 7: return r(A::nan()); case 8: return r(A::infinity()); case 9: return r(A::one()); case 10: return r(A::two()); default: return r(A()); } }
};
struct w8 : valuewrap<uint8_t> { using valuewrap<uint8_t>::valuewrap; };
struct w16 : valuewrap<uint16_t> { using valuewrap<uint16_t>::valuewrap; };
struct w32 : valuewrap<uint32_t> { using valuewrap<uint32_t>::valuewrap; };
typedef anyfloat_emu<4, 3, w8, uint8_t, float> e4m3; typedef anyfloat_emu<3, 4, w8, uint8_t, float> e3m4; typedef anyfloat_emu<6, 9, w16, uint16_t, float> e6m9; typedef anyfloat_emu<5, 10, w16, uint16_t, double> half_d; typedef anyfloat_emu<5, 2, w8, uint8_t, double> micro_d;
typedef anyfloat_emu<8, 7, halffloatalt, uint16_t, float, false> bf16; typedef anyfloat_emu<8, 23, w32, uint32_t, double> single_d; typedef anyfloat_emu<5, 26, w32, uint32_t, double> e5m26_d;
#define R(A, D) g_anys.push_back(new AImpl<A, int, D>(#A))
void register_anys() { R(binary8_emu, true); R(e4m3, true); R(e3m4, true); R(micro_d, true); R(binary16alt_emu, true); R(binary16_emu, true); R(bf16, false); R(e6m9, true); R(half_d, true); R(binary32_emu, true); R(single_d, true); R(e5m26_d, true); R(binary64_emu, true); }
