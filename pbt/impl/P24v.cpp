#include "simdposit8.hpp"
#include "simd.hpp"
#include <sstream>
#include <string.h>
typedef simd_posit8_32 V;
static V ld(const uint8_t* a) { return V(_mm256_loadu_si256((const __m256i*)a)); } static void st(uint8_t* o, __m256i v) { _mm256_storeu_si256((__m256i*)o, v); }
#ifdef LOUD
struct Quiet { Quiet() {} };
#else
struct Quiet { std::streambuf* b; Quiet() : b(std::cout.rdbuf(nullptr)) {} ~Quiet() { std::cout.rdbuf(b); std::cout.clear(); } };   // construction logs to the standard output
#endif
void simd_op(int op, const uint8_t* pa, const uint8_t* pb, const uint8_t* pc, uint8_t* o) {
  Quiet q; const V a = ld(pa), b = ld(pb), c = ld(pc);
  switch (op) { case S_ADD: st(o, (a + b).uu()); break; case S_SUB: st(o, (a - b).uu()); break; case S_MUL: st(o, (a * b).uu()); break; case S_DIV: st(o, (a / b).uu()); break;
    case S_NEG: st(o, (-a).uu()); break; case S_INV: st(o, a.inv().uu()); break; case S_SQ: st(o, a.square().uu()); break; case S_EXP2: st(o, a.exp2().uu()); break; case S_HALF: st(o, a.half().uu()); break; case S_TWICE: st(o, a.twice().uu()); break;
    case S_FNEG: st(o, neg(a).uu()); break; case S_FINV: st(o, inv(a).uu()); break; case S_FSQ: st(o, square(a).uu()); break; case S_FEXP2: st(o, exp2(a).uu()); break; case S_FHALF: st(o, half(a).uu()); break; case S_FTWICE: st(o, twice(a).uu()); break;
    case S_COPY: { V z; z = a; V y(V::Init(), z.uu()); st(o, y.uu()); break; } case S_ISNEG: st(o, a.is_negative()); break; case S_ISNAN: st(o, a.is_nan()); break; case S_ISINF: st(o, a.is_infinity()); break;
    case S_ISNEGEXP: st(o, a.has_neg_exponent()); break; case S_GAUSS: st(o, gauss2(a, b, c).uu()); break; case S_CHAIN: st(o, ((a + b) * c - a / b).uu()); break; }
}
void simd_float(const uint8_t* a, float* o) { std::array<float, 32> r = ld(a); memcpy(o, &r[0], sizeof(float) * 32); }
void simd_bcast_f(float x, uint8_t* o) { Quiet q; st(o, V(x).uu()); } void simd_bcast_i(int x, uint8_t* o) { Quiet q; st(o, V(x).uu()); }
std::string simd_print(const uint8_t* a) { std::ostringstream s; V v = ld(a); s << v; return s.str(); }
static const std::ios::fmtflags BASE[3] = {std::ios::dec, std::ios::hex, std::ios::oct};
std::string simd_print_test(const uint8_t* a, int which, int base, int* after) {   // the result of a test, or the vector itself, on a stream with the given base
  std::ostringstream s; s.setf(BASE[base], std::ios::basefield); V v = ld(a);
  if (which == 0) s << v.is_negative(); else if (which == 1) s << v.has_neg_exponent(); else if (which == 2) s << v.is_nan(); else if (which == 3) s << v.is_infinity(); else if (which == 4) s << v.uu(); else s << v;
  *after = 3; for (int i = 0; i < 3; i++) if ((s.flags() & std::ios::basefield) == BASE[i]) *after = i; return s.str();
}
