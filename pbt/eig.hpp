#pragma once
#include "gen.hpp"
struct IEigen { Fmt f; int ftb; std::string name; virtual void elementwise(Src&) = 0; virtual void reductions(Src&) = 0; virtual void products(Src&) = 0; virtual void exact(Src&) = 0; virtual void casts(Src&) = 0; virtual void history(Src&) = 0; virtual void unpacked(Src&) = 0; virtual ~IEigen() {} };
extern std::vector<IEigen*> g_eig;
