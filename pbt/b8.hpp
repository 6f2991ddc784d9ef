#pragma once
#include "ops.hpp"
// the tabulated 8-bit float behind plain functions on patterns
struct B8Api {
  static FFmt fmt(); static u64 from_f(float); static u64 from_d(double); static u64 from_i(int);
  static float to_f(u64); static double to_d(u64); static int to_i(u64);
  static u64 bin(int op, u64, u64);   // + - * / += *= min max
  static u64 un(int op, u64);         // inv half twice exp2 square - ; free inv half twice exp2 square neg ; std::abs
  static int cmp(u64, u64); static int negative(u64, int how); static u64 cst(int);   // max min one afterone zero default lmax lmin leps
};
