#pragma once
#include "ops.hpp"
struct ITab {
  Fmt f; int ftb; std::string name; virtual ~ITab() {}
  virtual i64 from_i(int) = 0; virtual i64 from_f(float) = 0; virtual i64 from_d(double) = 0; virtual i64 from_p(i64, int how) = 0;   // generic posit, both unpacked forms
  virtual float to_f(i64) = 0; virtual double to_d(i64) = 0; virtual int to_i(i64) = 0; virtual i64 to_p(i64, int how) = 0; virtual u64 uu(i64) = 0;
  virtual i64 bin(int op, i64, i64) = 0;    // + - * / += *= min max
  virtual i64 un(int op, i64) = 0;          // inv half twice exp2 square - (members), then the free functions inv half twice exp2 square neg, then std::abs
  virtual int cmp(i64, i64) = 0; virtual int preds(i64) = 0;  // negative nan infinity negative-exponent
  virtual bool cst(int, i64&) = 0;          // max min one afterone onehalf pinf ninf nan lmax lmin leps default zero two
  virtual std::string print(i64) = 0;
};
extern std::vector<ITab*> g_tabs;
#ifdef TAB_IMPL
template <class P> struct TabImpl : ITab {
  typedef typename P::FPT FPT; typedef typename P::DeepInit DI;
  TabImpl(const char* n) { f = Fmt{P::vtotalbits, P::vesbits, P::PT::positspec == PositSpec::WithNan ? WITHNAN : P::PT::positspec == PositSpec::WithInf ? WITHINF : WITHNANINF}; ftb = sizeof(typename P::FT) * 8; name = strf("%s es=%d spec=%d", n, f.es, (int)f.spec); }
  static P mk(i64 v) { return P(DI(), (typename P::value_t)v); } static i64 r(const P& p) { return p.v; }
  i64 from_i(int x) override { return r(fresh<P>(x)); } i64 from_f(float x) override { return r(fresh<P>(x)); } i64 from_d(double x) override { return r(fresh<P>(x)); }
  i64 from_p(i64 v, int how) override { FPT q(typename FPT::DeepInit(), (typename P::value_t)v); if (how == 0) return r(fresh<P>(q)); if (how == 1) return r(fresh<P>(q.unpack_low())); if (how == 2) return r(fresh<P>(q.unpack())); return r(fresh<P>(FPT(1) * q)); }
  float to_f(i64 v) override { return (float)mk(v); } double to_d(i64 v) override { return (double)mk(v); } int to_i(i64 v) override { return (int)mk(v); }
  i64 to_p(i64 v, int how) override { const P a = mk(v); if (how == 0) return a.as_posit().v; if (how == 1) { FPT q = a; return q.v; } if (how == 2) return FPT(a.unpack_low()).v; return FPT(a.unpack()).v; }
  u64 uu(i64 v) override { return mk(v).uu(); }
  i64 bin(int op, i64 x, i64 y) override { P a = mk(x), b = mk(y); switch (op) { case 0: return r(a + b); case 1: return r(a - b); case 2: return r(a * b); case 3: return r(a / b); case 4: a += b; return r(a); case 5: a *= b; return r(a); case 6: return r(std::min(a, b)); default: return r(std::max(a, b)); } }
  i64 un(int op, i64 x) override { const P a = mk(x); switch (op) { case 0: return r(a.inv()); case 1: return r(a.half()); case 2: return r(a.twice()); case 3: return r(a.exp2()); case 4: return r(a.square()); case 5: return r(-a);
      case 6: return r(inv(a)); case 7: return r(half(a)); case 8: return r(twice(a)); case 9: return r(exp2(a)); case 10: return r(square(a)); case 11: return r(neg(a)); default: return r(std::abs(a)); } }
  int cmp(i64 x, i64 y) override { P a = mk(x), b = mk(y); return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
  int preds(i64 x) override { P a = mk(x); return a.is_negative() | a.is_nan() << 1 | a.is_infinity() << 2 | a.has_neg_exponent() << 3 | neg_<P>(a, 0) << 4 | same(a.analyze(), a.as_posit().analyze(), x != 0) << 5; }
  template <class Q> static auto neg_(const Q& a, int) -> decltype(is_negative(a)) { return is_negative(a); } template <class Q> static bool neg_(const Q& a, long) { return a.is_negative(); }
  template <class I> static bool same(const I& a, const I& b, bool nz) { if (!(a.infinity == b.infinity && a.nan == b.nan)) return false; return !nz || a.infinity || a.nan || (a.sign == b.sign && a.k == b.k && a.rs == b.rs && a.es == b.es && a.fs == b.fs && a.exp == b.exp && a.exponent == b.exponent && a.ifraction == b.ifraction); }
  template <class Q> static auto zt(int i, i64& o, int) -> decltype(Q::zero(), Q::two(), true) { o = i == 12 ? r(Q::zero()) : r(Q::two()); return true; }
  template <class Q> static bool zt(int, i64&, long) { return false; }
  bool cst(int i, i64& o) override {
    switch (i) { case 0: o = r(P::max()); break; case 1: o = r(P::min()); break; case 2: o = r(P::one()); break; case 3: o = r(P::afterone()); break; case 4: o = r(P::onehalf()); break; case 5: o = r(P::pinfinity()); break; case 6: o = r(P::ninfinity()); break; case 7: o = r(P::nan()); break;
      case 8: o = r(std::numeric_limits<P>::max()); break; case 9: o = r(std::numeric_limits<P>::min()); break; case 10: o = r(std::numeric_limits<P>::epsilon()); break; case 11: o = r(fresh<P>()); break; default: return zt<P>(i, o, 0); }
    return true; }
  std::string print(i64 v) override { std::ostringstream s; s << mk(v); return s.str(); }
};
#endif
