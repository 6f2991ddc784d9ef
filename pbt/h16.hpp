#pragma once
#include "ops.hpp"
struct IHalf {
  virtual ~IHalf() {} virtual bool hw() = 0;
  virtual u64 from_f(float) = 0; virtual float to_f(u64) = 0; virtual double to_d(u64) = 0; virtual u64 raw(u64, int how) = 0;
  virtual u64 bin(int op, u64, u64) = 0;   // + - * / += *= rem
  virtual u64 un(int op, u64) = 0;         // half square inv sqrt neg - abs std::abs
  virtual u64 mad(u64, u64, u64) = 0;
  virtual int cmp(u64, u64) = 0;           // == < > >= <=
  virtual u64 cst(int) = 0;                // zero one two default
  virtual std::string print(u64) = 0;
};
extern IHalf* g_half; void register_half();
