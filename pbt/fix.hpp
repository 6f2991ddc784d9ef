#pragma once
#include "ops.hpp"
struct IFix { int N, F, W, EB; std::string name; virtual ~IFix() {} virtual Full decode(i64, int) = 0; virtual i64 encode(const Full&) = 0; };
struct IInt { int W; std::string name; virtual ~IInt() {} virtual Full decode(int, int) = 0; virtual int encode(const Full&) = 0; };
extern std::vector<IFix*> g_fixs; extern std::vector<IInt*> g_ints;
void register_fixs();
