#include "unpacked.h"
#include "unp.hpp"
std::vector<IUnp*> g_unps;
template <class FT, class ET> struct UImpl : IUnp {
  using U = Unpacked<FT, ET>;
  UImpl(const char* n) { W = sizeof(FT) * 8; EB = sizeof(ET) * 8; name = n; }
  static U in(const Full& x) {
    U u; u.type = x.type == FIN ? U::Regular : x.type == INF ? U::Infinity : x.type == NAN_ ? U::NaN : U::Zero;
    u.negativeSign = x.type == ZERO ? false : x.neg; u.exponent = x.type == FIN ? (ET)x.exp : 0; u.fraction = x.type == FIN ? (FT)(x.frac >> (64 - sizeof(FT) * 8)) : 0; return u;
  }
  static Full out(const U& u) { return Full{u.type == U::Regular ? FIN : u.type == U::Infinity ? INF : u.type == U::NaN ? NAN_ : ZERO, u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - sizeof(FT) * 8)}; }
  Full add(const Full& a, const Full& b) override { return out(in(a) + in(b)); }
  Full sub(const Full& a, const Full& b) override { return out(in(a) - in(b)); }
  Full iadd(const Full& a, const Full& b, int m) override { U x = in(a); if (m) x -= in(b); else x += in(b); return out(x); }
  Full mul(const Full& a, const Full& b) override { return out(in(a) * in(b)); }
  Full div(const Full& a, const Full& b) override { return out(in(a) / in(b)); }
  Full inv(const Full& a) override { return out(in(a).inv()); }
  Full neg(const Full& a) override { return out(-in(a)); }
  int eq(const Full& a, const Full& b) override { U x = in(a), y = in(b); return (x == y) | (x != y) << 1; }
  int preds(const Full& a) override { U x = in(a); return x.isInfinity() | x.isRegular() << 1 | x.isNaN() << 2 | x.isZero() << 3 | x.isPositive() << 4; }
  Full cst(int i) override { return out(i == 0 ? U::infinity() : i == 1 ? U::pinfinity() : i == 2 ? U::ninfinity() : i == 3 ? U::nan() : i == 4 ? U::one() : U::zero()); }
};
#define R(F, E) g_unps.push_back(new UImpl<F, E>("Unpacked<" #F "," #E ">"))
void register_unps() {
  R(uint8_t, int8_t); R(uint8_t, int16_t); R(uint8_t, int32_t); R(uint16_t, int8_t); R(uint16_t, int16_t); R(uint16_t, int32_t); R(uint32_t, int16_t); R(uint32_t, int32_t); R(uint32_t, int64_t);
  R(uint64_t, int16_t); R(uint64_t, int32_t); R(uint64_t, int64_t); R(uint8_t, int64_t); R(uint16_t, int64_t);
}
