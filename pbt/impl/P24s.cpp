#include "posit8.hpp"
#include "fresh.hpp"
#include "simd.hpp"
typedef posit8 P; static P mk(uint8_t v) { return P(P::DeepInit(), (int8_t)v); } static uint8_t r(P p) { return (uint8_t)p.v; } static uint8_t m(bool b) { return b ? 255 : 0; }
uint8_t scal_op(int op, uint8_t x, uint8_t y, uint8_t z) {
  const P a = mk(x), b = mk(y), c = mk(z);
  switch (op) { case S_ADD: return r(a + b); case S_SUB: return r(a - b); case S_MUL: return r(a * b); case S_DIV: return r(a / b); case S_NEG: case S_FNEG: return r(-a); case S_INV: case S_FINV: return r(a.inv()); case S_SQ: case S_FSQ: return r(a.square()); case S_EXP2: case S_FEXP2: return r(a.exp2()); case S_HALF: case S_FHALF: return r(a.half()); case S_TWICE: case S_FTWICE: return r(a.twice());
    case S_COPY: return x; case S_ISNEG: return m(a.is_negative()); case S_ISNAN: return m(a.is_nan()); case S_ISINF: return m(a.is_infinity()); case S_ISNEGEXP: return m(a.has_neg_exponent()); case S_GAUSS: return r((-(((a - b) / c).square()).half()).exp2()); default: return r((a + b) * c - a / b); }
}
float scal_float(uint8_t a) { return (float)mk(a); } uint8_t scal_f(float x) { return r(fresh<P>(x)); } uint8_t scal_i(int x) { return r(fresh<P>(x)); }
