#include <type_traits>
#include "typehelpers.hpp"
#include "bits.hpp"
#include <utility>
#define row vpb_row
#define grid vpb_grid
#define word vpb_word
#define least vpb_least
std::vector<Bits> g_bits; std::vector<CastT> g_casts; std::vector<int> g_least, g_leastu;
template <class T, int o, int s> u64_ f_get(u64_ x) { T v = (T)x; return bitset_getT(v, o, s); }
template <class T, int o, int s> u64_ f_get2(u64_ x) { return bitset_get<T, o, s>((T)x); }
template <class T, int o, int s> u64_ f_part(u64_ x, u64_ v) { return bitset_part<T, T, o, s>((T)x, (T)v); }
#ifdef __BMI__
template <class T, int o, int s> u64_ f_hwf(u64_ x) { return bitset_gethwT<o, s>((T)x); }
#define f_hw f_hwf<T, o, s>
template <class T> u64_ g_hwf(u64_ x, int o, int s) { return bitset_gethw((T)x, o, s); }
#define g_hw g_hwf<T>
#else
#define f_hw nullptr
#define g_hw nullptr
#endif
template <class T, int n> u64_ f_top(u64_ x) { return bitset_leftmost_get_const<T, n>()((T)x); }
template <class T, int n> std::string f_msb(u64_ x) { return bitset_msb<T, n>((T)x).to_string(); }
template <class T, int n> std::string f_lsb(u64_ x) { return bitset_lsb<T, n>((T)x).to_string(); }
template <class T, int o, int s, bool ok> struct PutF { static void go(Bits& b) { b.fields.push_back(FieldT{o, s, f_get<T, o, s>, f_get2<T, o, s>, f_part<T, o, s>, f_hw}); } };
template <class T, int o, int s> struct PutF<T, o, s, false> { static void go(Bits&) {} };
template <class T, int o, int... s> void row(Bits& b, std::integer_sequence<int, s...>) { int d[] = {0, (PutF<T, o, s, (o + s <= (int)sizeof(T) * 8)>::go(b), 0)...}; (void)d; }
template <class T, int... o> void grid(Bits& b, std::integer_sequence<int, o...>) { int d[] = {0, (row<T, o>(b, std::make_integer_sequence<int, sizeof(T) * 8 + 1 - o>()), 0)...}; (void)d; }
template <class T, int... n> void tops(Bits& b, std::integer_sequence<int, n...>) { int d[] = {0, (b.tops.push_back(TopT{n + 1, f_top<T, n + 1>, f_msb<T, n + 1>, f_lsb<T, n + 1>}), 0)...}; (void)d; }
template <class A, int a, class B, int b> u64_ c_msb(u64_ x) { return cast_msb<A, a, B, b>()((A)x); }
template <class A, int a, class B, int b> u64_ c_r2l(u64_ x) { return cast_right_to_left<A, a, B, b>()((A)x); }
template <class A, int a, class B, int b> void cast1() { g_casts.push_back(CastT{(int)sizeof(A) * 8, a, (int)sizeof(B) * 8, b, c_msb<A, a, B, b>, c_r2l<A, a, B, b>}); }
template <class A, int a, class B> void castb() { const int w = sizeof(B) * 8; cast1<A, a, B, 1>(); cast1<A, a, B, w / 2>(); cast1<A, a, B, w / 2 + 1>(); cast1<A, a, B, w - 1>(); cast1<A, a, B, w>(); }
template <class A, class B> void castab() { const int w = sizeof(A) * 8; castb<A, 1, B>(); castb<A, w / 2, B>(); castb<A, w / 2 - 1, B>(); castb<A, w - 1, B>(); castb<A, w, B>(); }
template <class A> void casta() { castab<A, uint8_t>(); castab<A, uint16_t>(); castab<A, uint32_t>(); castab<A, uint64_t>(); }
template <class T> struct F {
  using S = typename std::make_signed<T>::type; using X = typename nextinttype<T>::type;
  static u64_ mask(int n) { return bitmask<T>(n); }
  static u64_ get(u64_ x, int o, int s) { T v = (T)x; return (bitset_get)(v, o, s); }
  static u64_ getm(u64_ x, int o, int s) { T v = (T)x; return bitset_get(v, o, s); }
  static u64_ part(u64_ x, u64_ v, int o, int s) { return bitset_part((T)x, (T)v, o, s); }
  static int clz(u64_ x) { return findbitleftmostC((T)x); }
  static std::string all(u64_ x) { return bitset_all((T)x).to_string(); }
  static i64_ pca(i64_ x) { return (i64_)(S)pcabs((S)x); }
  static i64_ pa(i64_ x) { return (i64_)(S)pabs((S)x); }
  static void mul(u64_ a, u64_ b, u64_* hi, u64_* lo) { unsigned __int128 r = nextintop<T>::extramul((T)a, (T)b); *hi = (u64_)(r >> 64); *lo = (u64_)r; }
  static u64_ div(u64_ hi, u64_ lo, u64_ b) { return (u64_)nextintop<T>::extradiv((X)(((unsigned __int128)hi << 64) | lo), (T)b); }
};
template <class T> struct NS { static const int v = sizeof(typename nextinttype<T>::type) * 8; }; template <> struct NS<int64_t> { static const int v = 0; };
template <class T, int... o> void word() {
  using G = F<T>; using S = typename G::S;
  Bits b{(int)sizeof(T) * 8, G::mask, G::get, G::getm, g_hw, G::part, G::clz, G::all, G::pca, G::pa, G::mul, G::div, NS<T>::v, 0, NS<T>::v, NS<S>::v, (int)sizeof(typename printableinttype<T>::type) * 8, (int)sizeof(typename printableinttype<const S>::type) * 8, {}, {}};
  grid<T>(b, std::integer_sequence<int, o...>()); tops<T>(b, std::make_integer_sequence<int, sizeof(T) * 8>()); g_bits.push_back(b);
}
template <int... n> void least(std::integer_sequence<int, n...>) {
  int a[] = {(int)sizeof(typename int_least_bits<n + 1>::signed_type) * 8 * (((typename int_least_bits<n + 1>::signed_type)-1 < 0) ? 1 : -1)...}, b[] = {(int)sizeof(typename int_least_bits<n + 1>::unsigned_type) * 8 * (((typename int_least_bits<n + 1>::unsigned_type)-1 > 0) ? 1 : -1)...};
  g_least.assign(a, a + sizeof...(n)); g_leastu.assign(b, b + sizeof...(n));
}
void register_bits() {
  word<uint8_t, 0, 1, 2, 3, 4, 5, 6, 7>(); word<uint16_t, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15>(); word<uint32_t, 0, 1, 2, 5, 8, 13, 15, 16, 17, 24, 29, 30, 31>(); word<uint64_t, 0, 1, 3, 8, 16, 31, 32, 33, 47, 56, 62, 63>();
  casta<uint8_t>(); casta<uint16_t>(); casta<uint32_t>(); casta<uint64_t>(); least(std::make_integer_sequence<int, 128>());
}
