#pragma once
#include "names.hpp"
#include <cstdint>
uint32_t f2b(float x);
// first mismatch in a block of consecutive bit patterns; returns n when there is none
int f2b_block(uint32_t first, int n, uint32_t* got);
int clz64(uint64_t v);
struct F2BConst { uint32_t in, out; };
extern const F2BConst* f2b_consts; extern int f2b_nconsts;
