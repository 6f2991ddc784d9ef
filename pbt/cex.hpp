#pragma once
#ifdef CEX_IMPL
#include "posit.h"
#endif
#include "names.hpp"
#include <cstdint>
#include <vector>
struct CCase { const char* cfg; const char* op; int64_t a, b, c, ct; int64_t (*rt)(int64_t, int64_t, int64_t); };
extern std::vector<CCase> g_cases;
#ifdef CEX_IMPL
typedef int64_t L;
constexpr L hx(L a, L b) { return (L)((uint64_t)a * 0x9E3779B97F4A7C15ull + (uint64_t)b); }
template <class P, class T> struct O {
  typedef typename P::UnpackedT U;
  static constexpr P k(L v) { return P(typename P::DeepInit(), (T)v); }
  static constexpr L hu(const U& u) { return u.type == U::Regular ? hx(hx((L)u.exponent, (L)u.fraction), u.negativeSign) : (L)u.type * 2 + (u.type == U::Infinity && u.negativeSign); }
#define F(n, e) static constexpr L n(L a, L b, L c) { return (L)(e); }
  F(add, (k(a) + k(b)).v) F(sub, (k(a) - k(b)).v) F(mul, P(k(a) * k(b)).v) F(div, (k(a) / k(b)).v) F(neg, (-k(a)).v) F(abs, k(a).abs().v) F(sabs, std::abs(k(a)).v) F(inv, k(a).inv().v) F(half, k(a).half().v) F(twice, k(a).twice().v) F(next, k(a).next().v) F(prev, k(a).prev().v)
  F(eq, (k(a) == k(b)) | (k(a) != k(b)) << 1) F(lt, (k(a) < k(b)) | (k(a) <= k(b)) << 1 | (k(a) > k(b)) << 2 | (k(a) >= k(b)) << 3) F(pred, k(a).isNaN() | k(a).isinfinity() << 1 | k(a).iszero() << 2 | k(a).isone() << 3 | k(a).isnegative() << 4)
  F(fma_, fma(k(a), k(b), k(c)).v) F(chain, ((k(a) + k(b)) * k(c) - k(b)).v) F(mn, std::min(k(a), k(b)).v) F(mx, std::max(k(a), k(b)).v) F(fromi, P((int)a).v) F(frombits, P(typename P::single_tag(), (uint32_t)a).v)
  F(unpack, hu(k(a).unpack())) F(low, hx(hx(k(a).unpack_low().regime, k(a).unpack_low().exp), k(a).unpack_low().fraction)) F(relow, P::pack_low(k(a).unpack_low()).v) F(refull, P(k(a).unpack()).v)
  F(uadd, hu(k(a).unpack() + k(b).unpack())) F(umul, hu(k(a).unpack() * k(b).unpack())) F(udiv, hu(k(a).unpack() / k(b).unpack())) F(uinv, hu(k(a).unpack().inv())) F(uneg, hu(-k(a).unpack()))
  F(ur, k(a).isUnitRange()) F(sigm, k(a).pseudosigmoid().v) F(softp, k(a).pseudosoftplus().v) F(urm, k(a).urOneMinus().v) F(urd, k(a).urDeltaPs().v) F(toi, (int)k(a)) F(fbits, k(a).as_float_bin())
  static constexpr L dot(L a, L b, L c) { P x[3] = {k(a), k(b), k(c)}, y[3] = {k(c), k(a), k(b)}; return P::dot((const P*)x, (const P*)y, 3).v; }
  static constexpr L comp(L a, L b, L c) { P x = k(a); x += k(b); x *= k(c); return x.v; }
  static constexpr L cst(L a, L b, L c) { return (a == 0 ? P::zero() : a == 1 ? P::one() : a == 2 ? P::two() : a == 3 ? P::onehalf() : a == 4 ? P::mone() : a == 5 ? P::max() : a == 6 ? P::min() : a == 7 ? P::lowest() : a == 8 ? P::inf() : a == 9 ? P::nan() : a == 10 ? std::numeric_limits<P>::epsilon() : P()).v; }
#undef F
};
#endif
