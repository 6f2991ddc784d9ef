#include <sstream>
#include "float16native32.hpp"
#include "h16.hpp"
IHalf* g_half;
struct HImpl : IHalf {
  typedef float16n32 A; static A mk(u64 v) { return A(false, (uint16_t)v); } static u64 r(const A& a) { return a.raw(); }
  bool hw() override {
#if defined(__AVX__) && defined(__F16C__)
    return true;
#else
    return false;
#endif
  }
  u64 from_f(float x) override { return r(fresh<A>(x)); } float to_f(u64 v) override { return (float)mk(v); } double to_d(u64 v) override { return (double)mk(v); }
  u64 raw(u64 v, int how) override { A a = mk(v); if (how == 0) return a.raw(); float16n_t h = a; if (how == 1) return h.what; return r(fresh<A>(h)); }
  u64 bin(int op, u64 x, u64 y) override { A a = mk(x), b = mk(y); switch (op) { case 0: return r(a + b); case 1: return r(a - b); case 2: return r(a * b); case 3: return r(a / b); case 4: a += b; return r(a); case 5: a *= b; return r(a); default: return r(rem(a, b)); } }
  u64 un(int op, u64 x) override { A a = mk(x); switch (op) { case 0: return r(half(a)); case 1: return r(square(a)); case 2: return r(inv(a)); case 3: return r(sqrt(a)); case 4: return r(a.neg()); case 5: return r(-a); case 6: return r(a.abs()); default: return r(std::abs(a)); } }
  u64 mad(u64 x, u64 y, u64 z) override { return r(mulAdd(mk(x), mk(y), mk(z))); }
  int cmp(u64 x, u64 y) override { A a = mk(x), b = mk(y); return (a == b) | (a < b) << 1 | (a > b) << 2 | (a >= b) << 3 | (a <= b) << 4; }
  u64 cst(int i) override { switch (i) { case 0: return r(A::zero()); case 1: return r(A::one()); case 2: return r(A::two()); default: return r(fresh<A>()); } }
  std::string print(u64 v) override { std::ostringstream o; o << mk(v); return o.str(); }
};
void register_half() { g_half = new HImpl; }
