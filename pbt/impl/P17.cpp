#include "unpacked.h"
#include "fix.hpp"
std::vector<IFix*> g_fixs; std::vector<IInt*> g_ints;
template <class U> Full out(const U& u, int W) { return Full{u.type == U::Regular ? FIN : u.type == U::Infinity ? INF : u.type == U::NaN ? NAN_ : ZERO, u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - W)}; }
template <class FT, class ET> Unpacked<FT, ET> in(const Full& x) { using U = Unpacked<FT, ET>; U u; u.type = x.type == FIN ? U::Regular : x.type == INF ? U::Infinity : x.type == NAN_ ? U::NaN : U::Zero; u.negativeSign = x.neg; u.exponent = (ET)x.exp; u.fraction = (FT)(x.frac >> (64 - sizeof(FT) * 8)); return u; }
template <class FT, class ET, class T, int F_> struct FImpl : IFix {
  using U = Unpacked<FT, ET>; using TR = fixedtrait<T, sizeof(T) * 8, F_>;
  FImpl(const char* n) { N = sizeof(T) * 8; F = F_; W = sizeof(FT) * 8; EB = sizeof(ET) * 8; name = n; }
  Full decode(i64 v, int how) override { if (how == 0) return out(U::template make_fixed<TR>((T)v), W); U u = in<FT, ET>(Full{NAN_, true, 5, ~0ull}); u.template unpack_xfixed<TR>((T)v); return out(u, W); }
  i64 encode(const Full& x) override { return (i64)in<FT, ET>(x).template pack_xfixed<TR>(); }
};
template <class FT, class ET> struct IImpl : IInt {
  using U = Unpacked<FT, ET>;
  IImpl(const char* n) { W = sizeof(FT) * 8; name = n; }
  Full decode(int v, int how) override { if (how == 0) return out(fresh<U>(v), W); U u; u.unpack_int(v); return out(u, W); }
  int encode(const Full& x) override { return (int)in<FT, ET>(x); }
};
#define G(FT, ET, T, F) g_fixs.push_back(new FImpl<FT, ET, T, F>("fixedtrait<" #T ",all," #F "> through Unpacked<" #FT "," #ET ">"));
#define A(T, F) G(uint8_t, int32_t, T, F) G(uint16_t, int16_t, T, F) G(uint32_t, int32_t, T, F) G(uint64_t, int64_t, T, F)
#define I(FT, ET) g_ints.push_back(new IImpl<FT, ET>("int through Unpacked<" #FT "," #ET ">"));
void register_fixs() {
  A(int8_t, 0) A(int8_t, 1) A(int8_t, 3) A(int8_t, 4) A(int8_t, 6) A(int8_t, 7) A(int8_t, 8)
  A(int16_t, 0) A(int16_t, 1) A(int16_t, 5) A(int16_t, 8) A(int16_t, 11) A(int16_t, 15) A(int16_t, 16)
  A(int32_t, 0) A(int32_t, 1) A(int32_t, 7) A(int32_t, 16) A(int32_t, 24) A(int32_t, 31) A(int32_t, 32)
  A(int64_t, 0) A(int64_t, 1) A(int64_t, 20) A(int64_t, 32) A(int64_t, 48) A(int64_t, 63) A(int64_t, 64)
  I(uint8_t, int16_t) I(uint16_t, int16_t) I(uint32_t, int32_t) I(uint64_t, int32_t) I(uint64_t, int64_t) I(uint8_t, int8_t) I(uint32_t, int8_t)
}
