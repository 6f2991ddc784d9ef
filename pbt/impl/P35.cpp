#define NOMATLAB
#include "simd/asimd_all.h"
#include "lanes.hpp"
#include <cstring>
#include <sstream>
#include <type_traits>
std::vector<ILanes*> g_lanes;
template <class T> static T from(u64_ v) { T t; memcpy(&t, &v, sizeof t); return t; }
template <class T> static u64_ to(T t) { u64_ v = 0; memcpy(&v, &t, sizeof t); return v; }
// what a wrapper has is declared at registration
enum { BI = 1, GA = 2, AD = 4, SU = 8, ST = 16, BL = 32, PR = 64, EX = 128, AM = 256 };
template <class W, int F> struct L : ILanes {
  typedef typename W::type T; enum { N = W::csize };
  template <bool B> using is = std::integral_constant<bool, B>;
  L(const char* nm) : ILanes(nm) { n = N; bits = sizeof(T) * 8; kind = std::is_floating_point<T>::value ? 2 : std::is_unsigned<T>::value; hasbi = F & BI; hasg = F & GA; hasadd = F & AD; hassub = F & SU; hasstr = F & ST; hasblend = F & BL; hasprint = F & PR; hasext = F & EX; ni = nidx(is<(F & BI) != 0 || (F & GA) != 0>()); chunk = chk((W*)0); }
  template <class X, int M> static int chk(simd_x_a<X, M>*) { return X::csize; } static int chk(void*) { return N; }
  static int nidx(is<true>) { return W::indextype::csize; } static int nidx(is<false>) { return 0; }
  static W ld(const u64_* a) { T t[N]; for (int i = 0; i < N; i++) t[i] = from<T>(a[i]); W w; w.load(t); return w; }
  static void st(const W& w, u64_* o) { T t[N]; w.store(t); for (int i = 0; i < N; i++) o[i] = to(t[i]); }
  template <class I> static I ldi(const int* a) { int32_t t[I::csize]; for (int i = 0; i < I::csize; i++) t[i] = a[i]; I w; w.load(t); return w; }
  template <class I> static void sti(const I& w, int* o) { int32_t t[I::csize]; w.store(t); for (int i = 0; i < I::csize; i++) o[i] = t[i]; }
  std::string store(const u64_* a, u64_* o, int off) override {
    std::vector<unsigned char> m(sizeof(T) * (N + 4) + 64, 0xa5), k; T* p = (T*)(&m[0] + 16 + off); std::vector<unsigned char> in(sizeof(T) * N + 16); unsigned char* q = &in[off & 7];
    for (int i = 0; i < N; i++) { T t = from<T>(a[i]); memcpy(q + i * sizeof(T), &t, sizeof t); }
    W w; w.load((const T*)q); W v = w; v.store(p);
    for (int i = 0; i < N; i++) { T t; memcpy(&t, (unsigned char*)p + i * sizeof(T), sizeof t); o[i] = to(t); }
    for (size_t i = 0; i < m.size(); i++) { long d = (long)i - 16 - off; if ((d < 0 || d >= (long)(sizeof(T) * N)) && m[i] != 0xa5) return "byte " + std::to_string(d); }
    return "";
  }
  void bcast(u64_ v, u64_* o) override { W w(from<T>(v)); st(w, o); }
  template <class Q> static bool sep(const u64_* a, u64_* o, std::integral_constant<int, 2>, Q) { st(Q(from<T>(a[0]), from<T>(a[1])), o); return true; }
  template <class Q> static bool sep(const u64_* a, u64_* o, std::integral_constant<int, 4>, Q) { st(Q(from<T>(a[0]), from<T>(a[1]), from<T>(a[2]), from<T>(a[3])), o); return true; }
  template <class Q> static bool sep(const u64_*, u64_*, std::integral_constant<int, 0>, Q) { return false; }
  bool separate(const u64_* a, u64_* o) override { return sep(a, o, std::integral_constant<int, N == 2 && std::is_constructible<W, T, T>::value ? 2 : N == 4 && std::is_constructible<W, T, T, T, T>::value ? 4 : 0>(), W()); }
  void max(const u64_* a, const u64_* b, u64_* o) override { W x = ld(a), y = ld(b); st(x.max(y), o); }
  static void sel(W& a, W& b, W& x, W& y, is<true>) { auto m = a.cmplt(b); x.blend(y, m); } static void sel(W& a, W& b, W& x, W&, is<false>) { x = a.cmplt(b); }
  void select(const u64_* a, const u64_* b, const u64_* x, const u64_* y, u64_* o) override { W p = ld(a), q = ld(b), r = ld(x), s = ld(y); sel(p, q, r, s, is<(F & BL) != 0>()); st(r, o); }
  template <class Q> static void seli(W& a, W& b, const int* x, const int* y, int* o, Q, is<true>) { typedef typename W::indextype I; I u = ldi<I>(x), v = ldi<I>(y); W::blendindex(u, v, a.cmplt(b)); sti(u, o); }
  template <class Q> static void seli(W&, W&, const int*, const int*, int*, Q, is<false>) {}
  void selecti(const u64_* a, const u64_* b, const int* x, const int* y, int* o) override { W p = ld(a), q = ld(b); seli(p, q, x, y, o, 0, is<(F & BI) != 0>()); }
  static void ad(W& a, const W& b, is<true>) { a += b; } static void ad(W&, const W&, is<false>) {}
  void add(const u64_* a, const u64_* b, u64_* o) override { W x = ld(a); const W y = ld(b); ad(x, y, is<(F & AD) != 0>()); st(x, o); }
  void incr(u64_ v, u64_* o) override { W w; w.initincrement(from<T>(v)); st(w, o); }
  static u64_ sub(const W& a, int i, is<true>) { return to<T>(a[i]); } static u64_ sub(const W&, int, is<false>) { return 0; }
  u64_ lane(const u64_* a, int i) override { const W w = ld(a); return sub(w, i, is<(F & SU) != 0>()); }
  template <class Q> static void ga(W& w, const T* p, const int* off, Q, is<true>) { typedef typename W::indextype I; w.gather(p, ldi<I>(off)); } template <class Q> static void ga(W&, const T*, const int*, Q, is<false>) {}
  void gather(const unsigned char* p, const int* off, u64_* o) override { W w; ga(w, (const T*)p, off, 0, is<(F & GA) != 0>()); st(w, o); }
  template <class Q> void str(const T* p, int stride, W& w, Q, is<true>) { typename W::indextype g; initgather<W>(stride, g); loadstrided(w, p, stride, g); } template <class Q> void str(const T*, int, W&, Q, is<false>) {}
  template <class Q> void ext(const T* p, int stride, W& w, Q, is<true>) { w.load(p, stride); } template <class Q> void ext(const T*, int, W&, Q, is<false>) {}
  void strided(const u64_* a, int first, int stride, u64_* o) override { std::vector<T> v(len); for (int i = 0; i < len; i++) v[i] = from<T>(a[i]); W w; if (hasext) ext(&v[0] + first, stride, w, 0, is<(F & EX) != 0>()); else str(&v[0] + first, stride, w, 0, is<(F & ST) != 0>()); st(w, o); }
  template <class Q> static void am(const u64_* rows, int nr, u64_* best, int* idx, Q, is<true>) {
    typedef typename W::indextype I; int z[I::csize], one[I::csize]; for (int i = 0; i < I::csize; i++) { z[i] = 0; one[i] = 1; } W b = ld(rows); I cur = ldi<I>(z), bi = cur, inc = ldi<I>(one);
    for (int r = 1; r < nr; r++) { cur += inc; W x = ld(rows + r * N); auto m = b.cmplt(x); b.blend(x, m); W::blendindex(bi, cur, m); }
    st(b, best); sti(bi, idx);
  }
  template <class Q> static void am(const u64_*, int, u64_*, int*, Q, is<false>) {}
  void argmax(const u64_* rows, int nr, u64_* best, int* idx) override { am(rows, nr, best, idx, 0, is<(F & BI) != 0 && (F & BL) != 0>()); }
  unsigned size() override { return W().size(); }
  template <class Q> static void pr(std::ostream& s, const Q& w, is<true>) { s << w; } template <class Q> static void pr(std::ostream&, const Q&, is<false>) {}
  std::string print(const u64_* a) override { std::ostringstream s; pr(s, ld(a), is<(F & PR) != 0>()); return s.str(); }
};
template <class W, int F> static void reg(const char* n) { g_lanes.push_back(new L<W, F>(n)); }
void register_lanes() {
  reg<simd_i32_4, BI | GA | AD | ST | BL | PR>("i32_4"); reg<simd_i32_8, BI | GA | AD | ST | BL | PR>("i32_8"); reg<simd_u32_8, BI | GA | AD | ST | BL>("u32_8");
  reg<simd_i8_32, BI | ST | BL | PR>("i8_32"); reg<simd_u8_32, BI | ST | BL | PR>("u8_32"); reg<simd_u8_16, ST | BL | PR>("u8_16"); reg<simd_i8_16, ST | BL | PR>("i8_16");
  reg<simd_u16_8, ST | BL>("u16_8"); reg<simd_i16_8, ST | BL | PR>("i16_8"); reg<simd_i16_16, BI | ST | BL | PR>("i16_16"); reg<simd_u16_16, BI | ST | BL>("u16_16");
  reg<simd_d_2, BI | GA | SU | ST | BL | PR>("d_2"); reg<simd_d_4, BI | GA | SU | ST | BL | PR>("d_4"); reg<simd_f_4, BI | GA | ST | BL | PR>("f_4"); reg<simd_f_8, BI | GA | SU | ST | BL | PR>("f_8");
  reg<simd_x_a<simd_i32_8, 3>, BI | AD | BL | EX>("array of 3 i32_8"); reg<simd_x_a<simd_u32_8, 2>, AD | BL | EX>("array of 2 u32_8"); reg<simd_x_a<simd_f_8, 2>, BI | BL | EX>("array of 2 f_8"); reg<simd_x_a<simd_f_4, 5>, BI | BL | EX>("array of 5 f_4"); reg<simd_x_a<simd_d_4, 3>, BI | BL | EX>("array of 3 d_4");
  reg<simd_x_a<simd_i16_16, 2>, BL | EX>("array of 2 i16_16"); reg<simd_x_a<simd_u8_32, 1>, BL | EX>("array of 1 u8_32");
  reg<nonsimd<double>, SU | ST | PR>("scalar double"); reg<nonsimd<float>, SU | ST | PR>("scalar float"); reg<nonsimd<int32_t>, SU | ST | PR>("scalar int32"); reg<nonsimd<int16_t>, SU | ST | PR>("scalar int16"); reg<nonsimd<int8_t>, SU | ST>("scalar int8");
}
