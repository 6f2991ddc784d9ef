#pragma once
#include "names.hpp"
#include <stdint.h>
#include <string>
// 32 lanes of patterns; scalar: the table-driven posit8, vector: simd_posit8_32
enum { S_ADD, S_SUB, S_MUL, S_DIV, S_NEG, S_INV, S_SQ, S_EXP2, S_HALF, S_TWICE, S_FNEG, S_FINV, S_FSQ, S_FEXP2, S_FHALF, S_FTWICE, S_COPY, S_ISNEG, S_ISNAN, S_ISINF, S_ISNEGEXP, S_GAUSS, S_CHAIN, S_NOPS };
void simd_op(int op, const uint8_t* a, const uint8_t* b, const uint8_t* c, uint8_t* o); void simd_float(const uint8_t* a, float* o); void simd_bcast_f(float, uint8_t* o); void simd_bcast_i(int, uint8_t* o); std::string simd_print(const uint8_t* a); std::string simd_print_test(const uint8_t* a, int which, int base, int* after);
uint8_t scal_op(int op, uint8_t a, uint8_t b, uint8_t c); float scal_float(uint8_t a); uint8_t scal_f(float); uint8_t scal_i(int);
