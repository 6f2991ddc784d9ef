#include "binary8.hpp"
#include "b8.hpp"
typedef binary8tab B; static B mk(u64 v) { return B(B::DeepInit(), (int8_t)v); } static u64 r(B b) { return (uint8_t)b.v; }
FFmt B8Api::fmt() { return FFmt{BINARY8_EXP, BINARY8_MAN, true}; }
u64 B8Api::from_f(float x) { return r(fresh<B>(x)); } u64 B8Api::from_d(double x) { return r(fresh<B>(x)); } u64 B8Api::from_i(int x) { return r(fresh<B>(x)); }
float B8Api::to_f(u64 v) { return (float)mk(v); } double B8Api::to_d(u64 v) { return (double)mk(v); } int B8Api::to_i(u64 v) { return (int)mk(v); }
u64 B8Api::bin(int op, u64 x, u64 y) { B a = mk(x), b = mk(y); switch (op) { case 0: return r(a + b); case 1: return r(a - b); case 2: return r(a * b); case 3: return r(a / b); case 4: a += b; return r(a); case 5: a *= b; return r(a); case 6: return r(std::min(a, b)); default: return r(std::max(a, b)); } }
u64 B8Api::un(int op, u64 x) { const B a = mk(x); switch (op) { case 0: return r(a.inv()); case 1: return r(a.half()); case 2: return r(a.twice()); case 3: return r(a.exp2()); case 4: return r(a.square()); case 5: return r(-a);
  case 6: return r(inv(a)); case 7: return r(half(a)); case 8: return r(twice(a)); case 9: return r(exp2(a)); case 10: return r(square(a)); case 11: return r(neg(a)); default: return r(std::abs(a)); } }
int B8Api::cmp(u64 x, u64 y) { B a = mk(x), b = mk(y); return (a == b) | (a != b) << 1 | (a < b) << 2 | (a <= b) << 3 | (a > b) << 4 | (a >= b) << 5; }
int B8Api::negative(u64 x, int how) { return how ? is_negative(mk(x)) : mk(x).is_negative(); }
u64 B8Api::cst(int i) { switch (i) { case 0: return r(B::max()); case 1: return r(B::min()); case 2: return r(B::one()); case 3: return r(B::afterone()); case 4: return r(B::zero()); case 5: return r(B()); case 6: return r(std::numeric_limits<B>::max()); case 7: return r(std::numeric_limits<B>::min()); default: return r(std::numeric_limits<B>::epsilon()); } }
