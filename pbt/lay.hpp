#pragma once
#include "ops.hpp"
struct ILay {     // one IEEE-style layout seen through one Unpacked<FT,ET>
  FFmt f; int W, EB; std::string name;
  virtual ~ILay() {}
  virtual Full decode(u64 b, int how) = 0;     // bits, value type
  virtual u64 encode(const Full&, int how) = 0;
  virtual u64 consts(int i) = 0;               // +inf -inf nan one two max min lowest
};
struct IConv { FFmt a, b; std::string name; virtual ~IConv() {} virtual u64 conv(u64) = 0; };
extern std::vector<ILay*> g_lays; extern std::vector<IConv*> g_convs;
void register_lays();
