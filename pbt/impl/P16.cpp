#include "unpacked.h"
#include "lay.hpp"
std::vector<ILay*> g_lays; std::vector<IConv*> g_convs;
template <class V, class H> V tov(H h) { V v; memcpy((void*)&v, &h, sizeof v); return v; }
template <class H, class V> H toh(const V& v) { H h; memcpy(&h, (const void*)&v, sizeof h); return h; }
template <class FT, class ET, class TR> struct LImpl : ILay {
  using U = Unpacked<FT, ET>; using H = typename TR::holder_t; using V = typename TR::value_t;
  LImpl(const char* n, bool dn) { f = FFmt{TR::exponent_bits, TR::fraction_bits, dn}; W = sizeof(FT) * 8; EB = sizeof(ET) * 8; name = n; }
  static Full out(const U& u) { return Full{u.type == U::Regular ? FIN : u.type == U::Infinity ? INF : u.type == U::NaN ? NAN_ : ZERO, u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - sizeof(FT) * 8)}; }
  static U in(const Full& x) { U u; u.type = x.type == FIN ? U::Regular : x.type == INF ? U::Infinity : x.type == NAN_ ? U::NaN : U::Zero; u.negativeSign = x.neg; u.exponent = (ET)x.exp; u.fraction = (FT)(x.frac >> (64 - sizeof(FT) * 8)); return u; }
  Full decode(u64 b, int how) override {
    if (how == 0) return out(U::template make_floati<TR>((H)b));
    if (how == 1) return out(U::template make_float<TR>(tov<V, H>((H)b)));
    U u = in(Full{INF, true, 3, ~0ull}); u.template unpack_xfloati<TR>((H)b); return out(u);      // over an object in use
  }
  u64 encode(const Full& x, int how) override { U u = in(x); return how == 0 ? (u64)u.template pack_xfloati<TR>() : (u64)toh<H>(u.template pack_xfloat<TR>()); }
  u64 consts(int i) override { switch (i) { case 0: return (H)TR::pinfinity_h; case 1: return (H)TR::ninfinity_h; case 2: return (H)TR::nan_h; case 3: return (H)TR::one_h; case 4: return (H)TR::two_h; case 5: return (H)TR::max_h; case 6: return (H)TR::min_h; default: return (H)TR::lowest_h; } }
};
template <class A, class B> struct CImpl : IConv {
  CImpl(const char* n, bool da, bool db) { a = FFmt{A::exponent_bits, A::fraction_bits, da}; b = FFmt{B::exponent_bits, B::fraction_bits, db}; name = n; }
  u64 conv(u64 x) override { return (u64)convertfloats<A, B, uint64_t>((typename A::holder_t)x); }
};
struct w8 : valuewrap<uint8_t> { using valuewrap<uint8_t>::valuewrap; };
struct w16 : valuewrap<uint16_t> { using valuewrap<uint16_t>::valuewrap; };
struct w32 : valuewrap<uint32_t> { using valuewrap<uint32_t>::valuewrap; };
struct w64 : valuewrap<uint64_t> { using valuewrap<uint64_t>::valuewrap; };
using e4m3 = any_floattrait<4, 3, w8, uint8_t>; using e3m4 = any_floattrait<3, 4, w8, uint8_t>; using e2m5 = any_floattrait<2, 5, w8, uint8_t>; using e6m9 = any_floattrait<6, 9, w16, uint16_t>; using e5m10 = any_floattrait<5, 10, w16, uint16_t>;
using e8m23 = any_floattrait<8, 23, w32, uint32_t>; using e11m20 = any_floattrait<11, 20, w32, uint32_t>; using e5m26 = any_floattrait<5, 26, w32, uint32_t>; using e11m52 = any_floattrait<11, 52, w64, uint64_t>; using e14m49 = any_floattrait<14, 49, w64, uint64_t>; using e5m10f = any_floattrait<5, 10, w16, uint16_t, false>; using e4m3f = any_floattrait<4, 3, w8, uint8_t, false>;
#define ALL(X) X(microfloat_trait, true) X(half_traitalt, true) X(bfloat16_trait, false) X(half_trait, true) X(single_trait, true) X(double_trait, true)
#define MORE(X) X(e4m3, true) X(e3m4, true) X(e2m5, true) X(e6m9, true) X(e5m10, true) X(e8m23, true) X(e11m20, true) X(e5m26, true) X(e11m52, true) X(e14m49, true) X(e5m10f, false) X(e4m3f, false)
#define L(FT, ET, TR, D) g_lays.push_back(new LImpl<FT, ET, TR>(#TR " through Unpacked<" #FT "," #ET ">", D));
void register_lays() {
#define X1(TR, D) L(uint8_t, int32_t, TR, D) L(uint16_t, int16_t, TR, D) L(uint32_t, int32_t, TR, D) L(uint64_t, int32_t, TR, D)
#define X2(TR, D) L(uint64_t, int64_t, TR, D) L(uint32_t, int16_t, TR, D) L(uint8_t, int16_t, TR, D) L(uint16_t, int64_t, TR, D)
  ALL(X1) ALL(X2) MORE(X1)
#define Y(A, DA) Z(A, DA, microfloat_trait, true) Z(A, DA, half_traitalt, true) Z(A, DA, bfloat16_trait, false) Z(A, DA, half_trait, true) Z(A, DA, single_trait, true) Z(A, DA, double_trait, true)
#define Z(A, DA, B, DB) g_convs.push_back(new CImpl<A, B>(#A " to " #B, DA, DB));
  ALL(Y)
}
