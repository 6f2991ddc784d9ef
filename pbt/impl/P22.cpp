#include "positf.h"
#include "ops.hpp"
#include <sstream>
template <class T, int N, int ES, class FFT, PositSpec SP> struct PFImpl : IPosit {
  using P = PositF<T, N, ES, FFT, SP>; using UT = typename P::UnpackedT; using UL = typename P::UnpackedLow; using FT = typename P::FT;
  static P mk(i64 v) { return P(typename P::DeepInit(), (T)v); } static i64 r(const P& p) { return (i64)p.v; }
  PFImpl(const char* nm) { f.N = N; f.es = ES; f.spec = SP == PositSpec::WithNan ? WITHNAN : SP == PositSpec::WithInf ? WITHINF : WITHNANINF; holder = sizeof(T) * 8; ftb = sizeof(FFT) * 8; name = nm; }
  static Kind kd(typename UT::Type t) { return t == UT::Regular ? FIN : t == UT::Infinity ? INF : t == UT::NaN ? NAN_ : ZERO; }
  Full full(i64 v) override { UT u = mk(v).unpack(); return Full{(int)kd(u.type), u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - sizeof(FT) * 8)}; }
  Full low2full(i64 v) override { UT u = P::unpack_posit(mk(v)); return Full{(int)kd(u.type), u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - sizeof(FT) * 8)}; }
  i64 relow(i64 v, int how) override { UL u = mk(v).unpack_low(); return how ? r(P::pack_low(u)) : r(fresh<P>(u)); }
  i64 refull(i64 v, int how) override { UT u = mk(v); return how ? r(P::pack_posit(u)) : r(fresh<P>(u)); }
  int preds(i64 v) override { P p = mk(v); return p.isNaN() | p.isinfinity() << 1 | p.iszero() << 2 | p.isone() << 3 | p.isnegative() << 4 | p.hasNaN() << 5; }
  i64 from_f(float x) override { return r(fresh<P>(x)); } i64 from_d(double x) override { return r(fresh<P>(x)); } i64 from_i(int x) override { return r(fresh<P>(x)); }
  uint32_t to_fbits(i64 v, int) override { return f_bits((float)mk(v)); } u64 to_dbits(i64 v) override { return d_bits((double)mk(v)); } int to_i(i64 v) override { return (int)mk(v); }
  int cmp(i64 x, i64 y) override { P a = mk(x), b = mk(y); return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
  i64 mn(i64 x, i64 y) override { return r(std::min(mk(x), mk(y))); } i64 mx(i64 x, i64 y) override { return r(std::max(mk(x), mk(y))); }
  i64 neg(i64 v, int how) override { P p = mk(v); return how == 0 ? r(-p) : how == 1 ? r(p.neg()) : r(::neg(p)); }
  i64 abs_(i64 v, int how) override { P p = mk(v); return how == 0 ? r(p.abs()) : r(std::abs(p)); }
  i64 add(i64 x, i64 y) override { return r(mk(x) + mk(y)); } i64 sub(i64 x, i64 y) override { return r(mk(x) - mk(y)); } i64 mul(i64 x, i64 y) override { return r(mk(x) * mk(y)); } i64 div(i64 x, i64 y) override { return r(mk(x) / mk(y)); }
  i64 inv(i64 v, int how) override { P p = mk(v); return how == 0 ? r(p.inv()) : how == 1 ? r(~p) : r(::inv(p)); }
  i64 compound(int op, i64 x, i64 y) override { P a = mk(x), b = mk(y); if (op == 0) a += b; else a *= b; return r(a); }
  i64 self_op(int op, i64 x) override { P a = mk(x); if (op == 0) a += a; else a *= a; return r(a); }
  i64 half(i64 v) override { return r(mk(v).half()); } i64 twice(i64 v) override { return r(mk(v).twice()); } i64 next(i64 v) override { return r(mk(v).next()); } i64 prev(i64 v) override { return r(mk(v).prev()); }
  Consts consts() override { return Consts{r(P::zero()), r(P::one()), r(P::two()), r(P::mone()), r(P::onehalf()), r(P::min()), r(P::max()), r(P::lowest()), r(P::inf()), r(P::pinf()), r(P::ninf()), r(P::infinity()), r(P::nan()), 0}; }
  Limits limits() override { using L = std::numeric_limits<P>; return Limits{r(L::min()), r(L::max()), r(L::lowest()), r(L::epsilon()), r(L::infinity()), r(L::quiet_NaN()), r(L::denorm_min()), (i64)L::min_exponent, (i64)L::max_exponent, L::has_infinity, L::has_quiet_NaN, L::is_signed, L::is_integer, L::is_exact, L::is_specialized, L::radix, L::is_modulo, L::traps, L::is_iec559, L::has_signaling_NaN}; }
  i64 fma_(i64 x, i64 y, i64 z) override { return r(fma(mk(x), mk(y), mk(z))); }
  bool ur(i64 v) override { return mk(v).isUnitRange(); } i64 urm(i64 v) override { return r(mk(v).urOneMinus()); } i64 urd(i64 v) override { return r(mk(v).urDeltaPs()); } i64 sigm(i64 v) override { return r(mk(v).pseudosigmoid()); } i64 softp(i64 v) override { return r(mk(v).pseudosoftplus()); }
  std::string print_full(i64 v) override { std::ostringstream o; o << mk(v); return o.str(); }
};
#define C(T, N, ES, F, SP) g_cfgs.push_back(new PFImpl<T, N, ES, F, PositSpec::SP>("PositF<" #T "," #N "," #ES "," #F "," #SP ">"))
std::vector<IPosit*> g_cfgs;
void register_cfgs() {
  C(int8_t, 8, 0, float, WithNan); C(int8_t, 8, 2, float, WithNanInf); C(int8_t, 8, 1, double, WithInf); C(int8_t, 5, 1, float, WithNanInf); C(int8_t, 6, 0, float, WithNan); C(int16_t, 10, 2, float, WithNan); C(int16_t, 12, 1, float, WithInf); C(int16_t, 12, 0, float, WithNanInf);
  C(int16_t, 16, 1, float, WithNan); C(int16_t, 16, 2, double, WithNanInf); C(int32_t, 16, 0, float, WithNan); C(int32_t, 32, 2, double, WithNan); C(int32_t, 32, 2, float, WithNan); C(int32_t, 24, 3, double, WithInf); C(int64_t, 40, 2, double, WithNan); C(int64_t, 64, 3, double, WithNanInf); C(int32_t, 20, 0, double, WithNanInf);
}
