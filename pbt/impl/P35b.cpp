// a second file with the same headers: the program must still link
#define NOMATLAB
#include "simd/asimd_all.h"
int lanes_second_file() { return simd_i32_8::csize; }
