#include "posit.h"
#include "posit8.hpp"
#include "posit10.hpp"
#include "posit12.hpp"
#include "binary8.hpp"
#include "float16native32.hpp"
#include "tother.hpp"
#include <cstring>
std::vector<TOther> g_others;
template <class FT, class ET> void putU(std::ostream& o, const long long* a) {
  using U = Unpacked<FT, ET>; U u; u.type = a[0] == 0 ? U::Regular : a[0] == 1 ? U::Infinity : a[0] == 2 ? U::NaN : U::Zero; u.negativeSign = a[0] < 2 && a[1]; u.exponent = a[0] ? 0 : (ET)a[2]; u.fraction = a[0] ? 0 : (FT)a[3]; o << u;
}
template <class P> void putT(std::ostream& o, const long long* a) { o << P(typename P::DeepInit(), (typename P::value_t)a[0]); }
static float16n32 hf(long long v) { uint16_t b = (uint16_t)v; float16n32 h; memcpy((void*)&h, &b, 2); return h; }
static void putH(std::ostream& o, const long long* a) { o << hf(a[0]); }
static float valH(long long v) { return (float)hf(v); }
#define RU(F, E) g_others.push_back(TOther{"Unpacked<" #F "," #E ">", 0, sizeof(F) * 8, sizeof(E) * 8, putU<F, E>, nullptr})
void register_others() {
  RU(uint8_t, int8_t); RU(uint8_t, int32_t); RU(uint16_t, int16_t); RU(uint16_t, int64_t); RU(uint32_t, int32_t); RU(uint64_t, int32_t); RU(uint64_t, int64_t);
  g_others.push_back(TOther{"posit", 1, 8, 0, putT<posit8>, nullptr}); g_others.push_back(TOther{"posit", 1, 10, 0, putT<posit10>, nullptr}); g_others.push_back(TOther{"posit", 1, 12, 0, putT<posit12>, nullptr});
  g_others.push_back(TOther{"binary8tab", 1, 8, 0, putT<binary8tab>, nullptr}); g_others.push_back(TOther{"float16n32", 2, 16, 0, putH, valH});
}
