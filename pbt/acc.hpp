// Exact sums of products with a running bound on what a W-bit wide accumulator may lose.
#pragma once
#include <gmp.h>
#include "gen.hpp"
struct Z { mpz_t z; Z() { mpz_init(z); } ~Z() { mpz_clear(z); } Z(const Z&) = delete; Z& operator=(const Z&) = delete; };
inline void z_set128(mpz_t r, u128 v) { mpz_set_ui(r, (unsigned long)(v >> 64)); mpz_mul_2exp(r, r, 64); mpz_add_ui(r, r, (unsigned long)(u64)v); }
inline Dy z_dy(const mpz_t v, i64 base) {    // v * 2^base
  if (mpz_sgn(v) == 0) return dy_zero();
  size_t n = mpz_sizeinbase(v, 2); Z a, t; mpz_abs(a.z, v); u64 m; bool st = false;
  if (n <= 64) m = mpz_get_ui(a.z) << (64 - n);
  else { mpz_tdiv_q_2exp(t.z, a.z, n - 64); m = mpz_get_ui(t.z); st = mpz_scan1(a.z, 0) < n - 64; }
  Dy d; d.k = FIN; d.neg = mpz_sgn(v) < 0; d.m = m; d.e = base + (i64)n - 1; d.sticky = st; return d;
}
struct Acc {
  int W; i64 base; Z s, err; bool first = true;
  Acc(int w, i64 b) : W(w), base(b) {}
  // adds x*y*2^exps with (x,y) significands of 64 bits; exact: the term arrives without having been truncated (a single posit)
  void add(const Dy& x, const Dy* y) {
    if (x.k == ZERO || (y && y->k == ZERO)) { first = false; return; }
    Z p; i64 e; bool neg = x.neg; 
    if (y) { z_set128(p.z, (u128)x.m * y->m); e = x.e + y->e - 126; neg = x.neg != y->neg; } else { z_set128(p.z, x.m); e = x.e - 63; }
    size_t tz = mpz_scan1(p.z, 0), n = mpz_sizeinbase(p.z, 2); bool fits = (i64)(n - tz) <= W - 1;
    i64 Ep = e + (i64)n - 1;
    mpz_tdiv_q_2exp(p.z, p.z, tz); e += tz; mpz_mul_2exp(p.z, p.z, e - base);
    Z ep; if (y && !fits) pow2(ep.z, Ep - (W - 2));
    // exponent bound of the sum
    Z mag; mpz_abs(mag.z, s.z); mpz_add(mag.z, mag.z, err.z);
    bool wasfirst = first || (mpz_sgn(s.z) == 0 && mpz_sgn(err.z) == 0); first = false;
    if (wasfirst) { if (neg) mpz_neg(p.z, p.z); mpz_add(s.z, s.z, p.z); mpz_add(err.z, err.z, ep.z); return; }
    i64 Ea = mpz_sgn(mag.z) ? base + (i64)mpz_sizeinbase(mag.z, 2) - 1 : Ep; i64 E = Ea > Ep ? Ea : Ep, unit = E - (W - 2);
    bool exact = mpz_sgn(err.z) == 0 && mpz_sgn(ep.z) == 0 && (unit <= base || (mpz_divisible_2exp_p(s.z, unit - base) && mpz_divisible_2exp_p(p.z, unit - base)));
    if (neg) mpz_neg(p.z, p.z);
    mpz_add(s.z, s.z, p.z); mpz_add(err.z, err.z, ep.z);
    if (!exact) { Z u; pow2(u.z, unit + 1); mpz_add(err.z, err.z, u.z); }
  }
  void pow2(mpz_t r, i64 e) { mpz_set_ui(r, 1); if (e > base) mpz_mul_2exp(r, r, e - base); }   // at least one unit of the scale
  bool isexact() const { return mpz_sgn(err.z) == 0; }
  Dy value() { return z_dy(s.z, base); }
  i64 lo(const Fmt& f) { Z t; mpz_sub(t.z, s.z, err.z); return ref_encode(f, z_dy(t.z, base)); }
  i64 hi(const Fmt& f) { Z t; mpz_add(t.z, s.z, err.z); return ref_encode(f, z_dy(t.z, base)); }
};
