#pragma once
#include "ops.hpp"
struct IAny {
  FFmt f; bool dbl; int W; std::string name; virtual ~IAny() {}
  virtual u64 from_f(float) = 0; virtual u64 from_d(double) = 0; virtual u64 from_i(int) = 0; virtual u64 from_u(const Full&) = 0;
  virtual float to_f(u64) = 0; virtual double to_d(u64) = 0; virtual int to_i(u64) = 0; virtual Full to_u(u64, int) = 0;
  virtual u64 bin(int op, u64, u64) = 0;     // + - * / += *= min max
  virtual u64 un(int op, u64) = 0;           // half twice inv ~ neg - abs std::abs
  virtual u64 fma3(u64, u64, u64) = 0;
  virtual int cmp(u64, u64) = 0;
  virtual int preds(u64) = 0;                // negative, zero
  virtual u64 cst(int) = 0;                  // zero inf pinf ninf max min lowest nan infinity one two default
};
extern std::vector<IAny*> g_anys; void register_anys();
