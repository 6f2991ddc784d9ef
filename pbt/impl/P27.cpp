#include <cmath>
#include <cstring>
#include "floatconst2bits.hpp"
#include "f2b.hpp"
uint32_t f2b(float x) { return float2bits(x); }
int clz64(uint64_t v) { return count_leading_zeroes(v); }
