// The stand-in MATLAB: arrays with guard bytes around the data, calls back into MATLAB, errors as exceptions.
#pragma once
#include "mex.h"
#include <string>
#include <vector>
struct mxArray_tag {
  mxClassID c; bool cplx, inter, gone = false; std::vector<mwSize> d; std::vector<unsigned char> re, im; std::string s;
  size_t n() const { size_t k = 1; for (auto x : d) k *= x; return k; }
  unsigned char* data(int part) { return (part ? im : re).data() + 64; }      // part 1: the imaginary data, when held apart
};
typedef void (*MexFn)(int, mxArray**, int, const mxArray**);
struct MexErr { std::string msg; };
struct Mex {        // the state of the stand-in during one call
  bool inter = false; std::vector<mxArray*> all; std::vector<void*> mem; std::string printed; bool error = false; std::vector<std::string> calls; mxArray* shown = nullptr; mxArray* result = nullptr;
  mxArray* make(mxClassID c, bool cplx, std::vector<mwSize> d, int fill);
  mxArray* text(const std::string& s);
  void run(MexFn f, std::vector<mxArray*> args, int nlhs = 1);   // result: what it returned, or nothing
  std::string guards();                                          // says which array was written out of its bounds, if any
  ~Mex();
};
extern Mex* g_mex;
size_t class_size(mxClassID c);
const char* class_name(mxClassID c);
// converts an array as MATLAB's single(), double(), int8() ... do
mxArray* mex_convert(mxArray* a, mxClassID to);
