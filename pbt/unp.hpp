#pragma once
#include "ops.hpp"
// Type-erased access to Unpacked<FT,ET>
struct IUnp {
  int W, EB; std::string name;
  virtual ~IUnp() {}
  virtual Full add(const Full&, const Full&) = 0;
  virtual Full sub(const Full&, const Full&) = 0;
  virtual Full iadd(const Full&, const Full&, int) = 0;    // += , -=
  virtual Full mul(const Full&, const Full&) = 0;
  virtual Full div(const Full&, const Full&) = 0;
  virtual Full inv(const Full&) = 0;
  virtual Full neg(const Full&) = 0;
  virtual int eq(const Full&, const Full&) = 0;            // bit0 ==, bit1 !=
  virtual int preds(const Full&) = 0;                      // inf, regular, nan, zero, positive
  virtual Full cst(int) = 0;                               // infinity, pinfinity, ninfinity, nan, one, zero
};
extern std::vector<IUnp*> g_unps;
void register_unps();
