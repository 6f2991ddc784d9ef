// Type-erased access to the public interface of Posit<...>, so that a check is compiled once and the formats are
// instantiated in separate translation units. Raw values travel as the sign-extended holder integer.
#pragma once
#ifdef OPS_IMPL
#include "posit.h"
#endif
#include "engine.hpp"
#include "fresh.hpp"

struct Low { int type; bool neg; i64 regime; u64 exp; u64 frac; };       // frac left aligned in 64 bits
struct Full { int type; bool neg; i64 exp; u64 frac; };                  // frac left aligned in 64 bits, hidden one dropped
struct Info { bool inf, nan, sign; int k, rs, es, fs, exp, exponent; u64 ifrac; };
struct Limits { i64 min, max, lowest, eps, inf, nan, denorm_min; i64 minexp, maxexp; bool has_inf, has_nan, is_signed, is_integer, is_exact, spec; int radix; bool modulo, traps, iec559, snan; int digits10; };
struct Consts { i64 zero, one, two, mone, half, min, max, lowest, inf, pinf, ninf, infinity, nan, dflt; };

struct HStep { int op, d, a, b, c; u64 bits; };
enum { POOL = 5 };
enum HOp { H_INT, H_FLOAT, H_DOUBLE, H_PAT, H_COPY, H_DEFAULT, H_ADD, H_SUB, H_MUL, H_DIV, H_IADD, H_IMUL, H_IDIV, H_NEG, H_ABS, H_INV, H_HALF, H_TWICE, H_NEXT, H_PREV, H_FMA, H_DOT, H_MIN, H_MAX, H_SWAP, H_LOW, H_FULL, H_CMP, H_CHAIN, H_TODOUBLE, H_NOPS };

struct IPosit {
  Fmt f; int holder, ftb; std::string name;
#define NOTC { fail("operation not compiled into this check"); }
  virtual ~IPosit() {}
  // codec
  virtual Low low(i64) NOTC
  virtual Full full(i64) NOTC
  virtual Full low2full(i64) NOTC
  virtual Low full2low(i64) NOTC
  virtual i64 relow(i64, int) NOTC            // pattern -> fields -> pattern, two spellings
  virtual i64 refull(i64, int) NOTC
  virtual i64 encode(const Full&) NOTC        // arbitrary wide number -> pattern
  virtual Info analyze(i64) NOTC
  virtual int preds(i64) NOTC                 // bit0 nan,1 inf,2 zero,3 one,4 negative,5 hasNaN
  // conversions
  virtual i64 from_f(float) NOTC
  virtual i64 from_d(double) NOTC
  virtual i64 from_i(int) NOTC
  virtual i64 from_fbits(uint32_t) NOTC
  virtual uint32_t to_fbits(i64, int) NOTC    // through float, and as_float_bin
  virtual u64 to_dbits(i64) NOTC
  virtual uint16_t to_hbits(i64) NOTC
  virtual int to_i(i64) NOTC
  // comparisons: bit0 ==,1 !=,2 <,3 <=,4 >,5 >=
  virtual int cmp(i64, i64) NOTC
  virtual i64 mn(i64, i64) NOTC
  virtual i64 mx(i64, i64) NOTC
  // sign
  virtual i64 neg(i64, int) NOTC
  virtual i64 abs_(i64, int) NOTC
  // arithmetic
  virtual i64 add(i64, i64) NOTC
  virtual i64 sub(i64, i64) NOTC
  virtual i64 mul(i64, i64) NOTC
  virtual i64 div(i64, i64) NOTC
  virtual i64 inv(i64, int) NOTC
  virtual i64 compound(int op, i64, i64) NOTC // 0 +=, 1 *=, 2 /=
  virtual i64 self_op(int op, i64) NOTC       // x op= x, x op x
  virtual i64 half(i64) NOTC
  virtual i64 twice(i64) NOTC
  virtual i64 next(i64) NOTC
  virtual i64 prev(i64) NOTC
  virtual Consts consts() NOTC
  virtual Limits limits() NOTC
  virtual i64 fma_(i64, i64, i64) NOTC
  virtual i64 dot(const i64*, const i64*, int, int) NOTC
  // a whole history on POOL live objects; out[i*POOL..]: all objects after step i, aux[i]: value the step returned
  virtual void history(const HStep*, int, const i64*, i64*, i64*) NOTC
  // shortcuts
  virtual bool ur(i64) NOTC
  virtual i64 urm(i64) NOTC
  virtual i64 urd(i64) NOTC
  virtual i64 sigm(i64) NOTC
  virtual i64 softp(i64) NOTC
  virtual std::string print(const i64*, int, int) NOTC
  virtual std::string print_full(i64) NOTC
  // deferred products (POSITMUL builds)
  virtual i64 pm(int, i64, i64, i64, i64) NOTC          // a product in context `how`
  virtual i64 pmw(int, i64, i64, i64) NOTC               // the same context with the product already a posit
  virtual i64 pmf(int, i64, i64, i64, i64) NOTC          // fused forms
#undef NOTC
};
extern std::vector<IPosit*> g_cfgs;

#ifdef OPS_IMPL
#if defined(OPS_PRINT)
#include <sstream>
#endif
#if defined(OPS_DOT) || defined(OPS_HIST)
#include <list>
#endif

template <class T, int N, int ES, class FT, PositSpec SP>
struct PositImpl : IPosit {
  using P = Posit<T, N, ES, FT, SP>;
  using UT = typename P::UnpackedT;
  using UL = typename P::UnpackedLow;
  static P mk(i64 v) { return P(typename P::DeepInit(), (T)v); }
  static i64 r(const P& p) { return (i64)p.v; }
  PositImpl(const char* nm) {
    f.N = N; f.es = ES; f.spec = SP == PositSpec::WithNan ? WITHNAN : SP == PositSpec::WithInf ? WITHINF : WITHNANINF;
    holder = sizeof(T) * 8; ftb = sizeof(FT) * 8; name = nm;
  }
  static Kind kd(typename UT::Type t) { return t == UT::Regular ? FIN : t == UT::Infinity ? INF : t == UT::NaN ? NAN_ : ZERO; }
  static Full cvt(const UT& u) { return Full{(int)kd(u.type), u.negativeSign, (i64)u.exponent, (u64)u.fraction << (64 - sizeof(FT) * 8)}; }
  static Low cvl(const UL& u) { return Low{(int)kd(u.type), u.negativeSign, (i64)u.regime, (u64)u.exp, (u64)u.fraction << (64 - sizeof(T) * 8)}; }
#ifdef OPS_CODEC
  Low low(i64 v) override { return cvl(mk(v).unpack_low()); }
  Full full(i64 v) override { return cvt(mk(v).unpack()); }
  Full low2full(i64 v) override { return cvt(P::unpacked_low2full(mk(v).unpack_low())); }
  Low full2low(i64 v) override { return cvl(P::unpacked_full2low(mk(v).unpack())); }
  i64 relow(i64 v, int how) override { UL u = mk(v).unpack_low(); return how ? r(P::pack_low(u)) : r(fresh<P>(u)); }
  i64 refull(i64 v, int how) override { UT u = mk(v).unpack(); return how ? r(pack_posit<T, N, ES, FT, SP>(u)) : r(fresh<P>(u)); }
  Info analyze(i64 v) override {
    P p = mk(v); typename P::info i = p.analyze();
    return Info{i.infinity, i.nan, i.sign, i.k, i.rs, i.es, i.fs, i.exp, i.exponent, (u64)i.ifraction << (64 - sizeof(FT) * 8)};
  }
  int preds(i64 v) override { P p = mk(v); return p.isNaN() | p.isinfinity() << 1 | p.iszero() << 2 | p.isone() << 3 | p.isnegative() << 4 | p.hasNaN() << 5; }
#endif
#ifdef OPS_ENCODE
  i64 encode(const Full& x) override {
    UT u; u.type = x.type == FIN ? UT::Regular : x.type == INF ? UT::Infinity : x.type == NAN_ ? UT::NaN : UT::Zero;
    u.negativeSign = x.neg; u.exponent = (typename P::exponenttype)x.exp; u.fraction = (FT)(x.frac >> (64 - sizeof(FT) * 8));
    return r(fresh<P>(u));
  }
#endif
#ifdef OPS_FROM
  i64 from_f(float x) override { return r(fresh<P>(x)); }
  i64 from_d(double x) override { return r(fresh<P>(x)); }
  i64 from_i(int x) override { return r(fresh<P>(x)); }
  i64 from_fbits(uint32_t b) override { return r(fresh<P>(typename P::single_tag(), b)); }
#endif
#ifdef OPS_TO
  uint32_t to_fbits(i64 v, int how) override { P p = mk(v); return how ? p.as_float_bin() : f_bits((float)p); }
  u64 to_dbits(i64 v) override { return d_bits((double)mk(v)); }
  uint16_t to_hbits(i64 v) override { halffloat h = mk(v).unpack(); return h.what; }
  int to_i(i64 v) override { return (int)mk(v); }
#endif
#ifdef OPS_CMP
  int cmp(i64 x, i64 y) override { P a = mk(x), b = mk(y); return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
  i64 mn(i64 x, i64 y) override { return r(std::min(mk(x), mk(y))); }
  i64 mx(i64 x, i64 y) override { return r(std::max(mk(x), mk(y))); }
#endif
#ifdef OPS_SIGN
  i64 neg(i64 v, int how) override { P p = mk(v); return how == 0 ? r(-p) : how == 1 ? r(p.neg()) : r(::neg(p)); }
  i64 abs_(i64 v, int how) override { P p = mk(v); return how == 0 ? r(p.abs()) : r(std::abs(p)); }
#endif
#ifdef OPS_ADD
  i64 add(i64 x, i64 y) override { return r(mk(x) + mk(y)); }
  i64 sub(i64 x, i64 y) override { return r(mk(x) - mk(y)); }
#endif
#ifdef OPS_MUL
  i64 mul(i64 x, i64 y) override { P p = mk(x) * mk(y); return r(p); }
#endif
#ifdef OPS_DIV
  i64 div(i64 x, i64 y) override { return r(mk(x) / mk(y)); }
  i64 inv(i64 v, int how) override { P p = mk(v); return how == 0 ? r(p.inv()) : how == 1 ? r(~p) : r(::inv(p)); }
#endif
#ifdef OPS_COMPOUND
  i64 compound(int op, i64 x, i64 y) override {
    P a = mk(x), b = mk(y); P* q;
    if (op == 0) q = &(a += b); else if (op == 1) q = &(a *= b); else q = &(a /= b);
    if (q != &a) fail("%s: compound assignment does not return its left operand", name.c_str());
    if (r(b) != y) fail("%s: compound assignment changed its right operand %lld to %lld", name.c_str(), (long long)y, (long long)r(b));
    return r(a);
  }
  i64 self_op(int op, i64 x) override { P a = mk(x); if (op == 0) a += a; else if (op == 1) a *= a; else a /= a; return r(a); }
#endif
#ifdef OPS_SCALE
  i64 half(i64 v) override { return r(mk(v).half()); }
  i64 twice(i64 v) override { return r(mk(v).twice()); }
#endif
#ifdef OPS_STEP
  i64 next(i64 v) override { return r(mk(v).next()); }
  i64 prev(i64 v) override { return r(mk(v).prev()); }
#endif
#ifdef OPS_CONST
  Consts consts() override {
    return Consts{r(P::zero()), r(P::one()), r(P::two()), r(P::mone()), r(P::onehalf()), r(P::min()), r(P::max()), r(P::lowest()),
                  r(P::inf()), r(P::pinf()), r(P::ninf()), r(P::infinity()), r(P::nan()), r(fresh<P>())};
  }
  Limits limits() override {
    using L = std::numeric_limits<P>;
    return Limits{r(L::min()), r(L::max()), r(L::lowest()), r(L::epsilon()), r(L::infinity()), r(L::quiet_NaN()), r(L::denorm_min()),
                  (i64)L::min_exponent, (i64)L::max_exponent, L::has_infinity, L::has_quiet_NaN, L::is_signed, L::is_integer, L::is_exact, L::is_specialized, L::radix,
                  L::is_modulo, L::traps, L::is_iec559, L::has_signaling_NaN, L::digits10};
  }
#endif
#ifdef OPS_DOT
  i64 fma_(i64 x, i64 y, i64 z) override { return r(fma(mk(x), mk(y), mk(z))); }
  i64 dot(const i64* x, const i64* y, int n, int how) override {
    std::vector<P> a; for (int i = 0; i < n; i++) a.push_back(mk(x[i]));
    if (how == 1) { std::list<P> b; for (int i = 0; i < n; i++) b.push_back(mk(y[i])); return r(P::dot(a.begin(), b.begin(), n)); }
    std::vector<P> b; for (int i = 0; i < n; i++) b.push_back(mk(y[i]));
    return how == 2 ? r(P::dot(a.begin(), b.begin(), n)) : r(P::dot(a.data(), b.data(), n));
  }
#endif
#ifdef OPS_HIST
  void history(const HStep* h, int n, const i64* init, i64* out, i64* aux) override {
    P p[POOL]; for (int i = 0; i < POOL; i++) p[i] = mk(init[i]);
    for (int i = 0; i < n; i++) {
      const HStep& s = h[i]; P &d = p[s.d], &a = p[s.a], &b = p[s.b], &c = p[s.c]; i64 x = 0;
      switch (s.op) {
        case H_INT: d = P((int)(uint32_t)s.bits); break;
        case H_FLOAT: d = P(bits_f((uint32_t)s.bits)); break;
        case H_DOUBLE: d = P(bits_d(s.bits)); break;
        case H_PAT: d = mk((i64)s.bits); break;
        case H_COPY: d = a; break;
        case H_DEFAULT: d = P(); break;
        case H_ADD: d = a + b; break;
        case H_SUB: d = a - b; break;
        case H_MUL: d = a * b; break;
        case H_DIV: d = a / b; break;
        case H_IADD: x = r(d += a); break;
        case H_IMUL: x = r(d *= a); break;
        case H_IDIV: x = r(d /= a); break;
        case H_NEG: d = -a; break;
        case H_ABS: d = a.abs(); break;
        case H_INV: d = a.inv(); break;
        case H_HALF: d = a.half(); break;
        case H_TWICE: d = a.twice(); break;
        case H_NEXT: d = a.next(); break;
        case H_PREV: d = a.prev(); break;
        case H_FMA: d = fma(a, b, c); break;
        case H_DOT: { int m = (int)(s.bits % (POOL + 1)); d = P::dot(&p[0], &p[0] + (POOL - m), m); break; }
        case H_MIN: d = std::min(a, b); break;
        case H_MAX: d = std::max(a, b); break;
        case H_SWAP: { P t(a); a = b; b = t; break; }
        case H_LOW: d = P(a.unpack_low()); break;
        case H_FULL: d = P(a.unpack()); break;
        case H_CMP: x = (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; break;
        case H_CHAIN: (d += a) += b; break;
        case H_TODOUBLE: x = (i64)d_bits((double)a); break;
      }
      for (int k = 0; k < POOL; k++) out[i * POOL + k] = r(p[k]);
      aux[i] = x;
    }
  }
#endif
#ifdef OPS_UR
  bool ur(i64 v) override { return mk(v).isUnitRange(); }
  i64 urm(i64 v) override { return r(mk(v).urOneMinus()); }
  i64 urd(i64 v) override { return r(mk(v).urDeltaPs()); }
  i64 sigm(i64 v) override { return r(mk(v).pseudosigmoid()); }
  i64 softp(i64 v) override { return r(mk(v).pseudosoftplus()); }
#endif
#ifdef OPS_PM
  static P pass(P x) { return x; }
  static P ret(const P& a, const P& b) { return a * b; }
  i64 pm(int how, i64 a_, i64 b_, i64 c_, i64 d_) override {
    const P a = mk(a_), b = mk(b_), c = mk(c_), d = mk(d_);
    switch (how) {
      case 0: { P x = a * b; return r(x); }
      case 1: return r(fresh<P>(a * b));
      case 2: { P x; x = a * b; return r(x); }
      case 3: return r(pass(a * b));
      case 4: return r(ret(a, b));
      case 5: { P x[2] = {c, a * b}; return r(x[1]); }
      case 6: { std::vector<P> x; x.push_back(a * b); return r(x[0]); }
      case 7: { auto m = a * b; P x = m; P y = m; return r(x) == r(y) ? r(x) : ~r(x); }
      case 8: return r(static_cast<P>(a * b));
      case 9: return (i64)f_bits((float)(a * b));
      case 10: return (i64)d_bits((double)(a * b));
      case 11: { float x = a * b; return (i64)f_bits(x); }
      case 12: { int x = a * b; return x; }
      case 13: { UT x = a * b; return r(fresh<P>(x)); }
      case 14: return r(a * b * c);
      case 15: return r(c * (a * b));
      case 16: return r(a * b / c);
      case 17: return r(c / (a * b));
      case 18: return r(a * b - c);
      case 19: return r(c - a * b);
      case 20: { P x = c; x *= a * b; return r(x); }
      case 21: { P x = c; x /= a * b; return r(x); }
      case 22: return (a * b < c) | (c < a * b) << 1 | (a * b == c) << 2 | (c >= a * b) << 3 | (a * b != c) << 4 | (a * b <= c) << 5;
      case 23: return r(::inv(P(a * b)));
      case 24: { P x = true ? a * b : c; return r(x); }
      case 25: return r(fma(a * b, c, d));
      case 26: { P x[2] = {a * b, c}, y[2] = {d, a * b}; return r(P::dot(x, y, 2)); }
    }
    return 0;
  }
  i64 pmw(int how, i64 p_, i64 c_, i64 d_) override {
    const P p = mk(p_), c = mk(c_), d = mk(d_);
    switch (how) {
      case 9: case 11: return (i64)f_bits((float)p);
      case 10: return (i64)d_bits((double)p);
      case 12: return (int)p;
      case 14: case 15: case 20: { P x = pack_posit<T, N, ES, FT, SP>(p.unpack() * c.unpack()); return r(x); }
      case 16: return r(p / c);
      case 17: case 21: return r(c / p);
      case 18: return r(p - c);
      case 19: return r(c - p);
      case 22: return (p < c) | (c < p) << 1 | (p == c) << 2 | (c >= p) << 3 | (p != c) << 4 | (p <= c) << 5;
      case 23: return r(::inv(p));
      case 27: return r(c + p);
      case 25: return r(fma(p, c, d));
      case 26: { P x[2] = {p, c}, y[2] = {d, p}; return r(P::dot(x, y, 2)); }
      default: return p_;
    }
  }
  i64 pmf(int how, i64 a_, i64 b_, i64 c_, i64 d_) override {
    const P a = mk(a_), b = mk(b_), c = mk(c_), d = mk(d_);
    switch (how) {
      case 0: return r(a * b + c);
      case 1: return r(c + a * b);
      case 2: return r(a * b + c * d);
      case 3: return r(a * b - c * d);
      case 4: return r(fma(a, b, c));
      case 5: { P x = c; x += a * b; return r(x); }
      case 6: return r(a * b + c * d + a * d);
    }
    return 0;
  }
#endif
#ifdef OPS_PRINT
  // a program of stream actions: pairs (action, argument). how 0: posits inserted, 1: what they should print inserted
  std::string print(const i64* g, int n, int how) override {
    std::ostringstream o; std::string st;
    for (int i = 0; i < n; i++) {
      i64 a = g[2 * i + 1];
      switch (g[2 * i]) {
        case 0: o.setf(a % 3 == 0 ? std::ios::dec : a % 3 == 1 ? std::ios::hex : std::ios::oct, std::ios::basefield); break;
        case 1: o.precision(a); break;
        case 2: o.width((o.flags() & std::ios::basefield) == std::ios::oct ? 0 : a); break;
        case 3: o.fill((char)a); break;
        case 4: { static const std::ios::fmtflags fl[] = {std::ios::showpos, std::ios::showbase, std::ios::uppercase, std::ios::showpoint, std::ios::left, std::ios::internal}; o.setf(std::ios::fmtflags(0)); if (a % 6 < 4) o.flags(a >= 6 ? o.flags() & ~fl[a % 6] : o.flags() | fl[a % 6]); else o.setf(fl[a % 6], std::ios::adjustfield); break; }
        case 5: o.setf(a == 0 ? std::ios::fmtflags(0) : a == 1 ? std::ios::fixed : std::ios::scientific, std::ios::floatfield); break;
        case 6: o << (int)a; break;
        default: {
          std::ios::fmtflags bf = o.flags() & std::ios::basefield;
          if (bf == std::ios::oct) o.width(0);
          if (how == 0) { std::ostream& q = o << mk(a); if (&q != &o) st += "#other stream returned"; }
          else {
            o.setf(std::ios::dec, std::ios::basefield);
            if (bf == std::ios::dec) o << (float)mk(a); else if (bf == std::ios::hex) o << (long long)a; else o << mk(a).unpack();
            o.setf(bf, std::ios::basefield);
          }
        }
      }
      o.width(g[2 * i] == 2 ? o.width() : 0);
      st += strf(" [%zu:%lx:%d]", o.str().size(), (unsigned long)o.flags(), (int)o.precision());
      if (g[2 * i] >= 6) o << '|';
    }
    return o.str() + st;
  }
  std::string print_full(i64 v) override { std::ostringstream o; o << mk(v).unpack(); return o.str(); }
#ifndef OPS_TO
  uint32_t to_fbits(i64 v, int how) override { P p = mk(v); return how ? p.as_float_bin() : f_bits((float)p); }
#endif
#endif
};
#define CFG(T, N, ES, FT, SP) g_cfgs.push_back(new PositImpl<T, N, ES, FT, PositSpec::SP>("Posit<" #T "," #N "," #ES "," #FT "," #SP ">"))
#endif
