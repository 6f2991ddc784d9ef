#include "mexlib.hpp"
#include <stdarg.h>
#include <math.h>
Mex* g_mex;
static const unsigned char GUARD = 0x5c;
size_t class_size(mxClassID c) { switch (c) { case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxINT16_CLASS: case mxUINT16_CLASS: case mxCHAR_CLASS: return 2; default: return 1; } }
const char* class_name(mxClassID c) { static const char* n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"}; return n[c]; }
mxArray* Mex::make(mxClassID c, bool cplx, std::vector<mwSize> d, int fill) {
  mxArray* a = new mxArray; while (d.size() < 2) d.push_back(1); a->c = c; a->cplx = cplx; a->inter = inter; a->d = d; size_t b = a->n() * class_size(c) * (cplx && inter ? 2 : 1);
  a->re.assign(b + 128, GUARD); memset(a->data(0), fill, b); if (cplx && !inter) { a->im.assign(b + 128, GUARD); memset(a->data(1), fill, b); }
  all.push_back(a); return a;
}
mxArray* Mex::text(const std::string& s) { mxArray* a = make(mxCHAR_CLASS, false, {1, s.size()}, 0); a->s = s; for (size_t i = 0; i < s.size(); i++) ((mxChar*)a->data(0))[i] = s[i]; return a; }
Mex::~Mex() { for (auto a : all) delete a; for (auto p : mem) free(p); }
std::string Mex::guards() { for (auto a : all) for (auto v : {&a->re, &a->im}) if (v->size()) for (int i = 0; i < 64; i++) if ((*v)[i] != GUARD || (*v)[v->size() - 1 - i] != GUARD) return std::string("wrote outside a ") + class_name(a->c) + " array of " + std::to_string(a->n()) + " elements"; return ""; }
void Mex::run(MexFn f, std::vector<mxArray*> args, int nlhs) {
  mxArray* out[4] = {}; Mex* was = g_mex; g_mex = this; printed.clear(); calls.clear(); error = false; shown = result = nullptr;
  try { f(nlhs, out, (int)args.size(), (const mxArray**)args.data()); result = out[0]; } catch (MexErr& e) { printed += e.msg; error = true; }
  g_mex = was; if (result && result->gone) throw MexErr{"returned an array it destroyed"};
}
static double elem(mxArray* a, int part, size_t i) { unsigned char* p = a->data(part);
#define E(C, T) case C: return (double)((T*)p)[i];
  switch (a->c) { E(mxDOUBLE_CLASS, double) E(mxSINGLE_CLASS, float) E(mxINT8_CLASS, int8_t) E(mxUINT8_CLASS, uint8_t) E(mxLOGICAL_CLASS, uint8_t) E(mxINT16_CLASS, int16_t) E(mxUINT16_CLASS, uint16_t) E(mxCHAR_CLASS, uint16_t) E(mxINT32_CLASS, int32_t) E(mxUINT32_CLASS, uint32_t) default: return 0; } }
static float as_single(mxArray* a, int part, size_t i) { if (a->c == mxINT64_CLASS) return (float)((int64_t*)a->data(part))[i]; if (a->c == mxUINT64_CLASS) return (float)((uint64_t*)a->data(part))[i]; return (float)elem(a, part, i); }
template <class T> static T sat(double v, double lo, double hi1) { v = round(v); return v != v ? 0 : v < lo ? (T)lo : v >= hi1 ? (T)(hi1 == 0x1p63 ? (T)INT64_MAX : hi1 == 0x1p64 ? (T)UINT64_MAX : (T)(hi1 - 1)) : (T)v; }
mxArray* mex_convert(mxArray* a, mxClassID to) {
  mxArray* r = g_mex->make(to, a->cplx, a->d, 0); size_t n = a->n() * (a->cplx && a->inter ? 2 : 1);
  for (int part = 0; part < (a->im.size() ? 2 : 1); part++) for (size_t i = 0; i < n; i++) { unsigned char* p = r->data(part); double v = a->c == mxINT64_CLASS || a->c == mxUINT64_CLASS ? as_single(a, part, i) : elem(a, part, i);
    switch (to) { case mxDOUBLE_CLASS: ((double*)p)[i] = v; break; case mxSINGLE_CLASS: ((float*)p)[i] = as_single(a, part, i); break;
#define S(C, T, L, H) case C: ((T*)p)[i] = sat<T>(v, L, H); break;
      S(mxINT8_CLASS, int8_t, -128., 128.) S(mxUINT8_CLASS, uint8_t, 0., 256.) S(mxINT16_CLASS, int16_t, -32768., 32768.) S(mxUINT16_CLASS, uint16_t, 0., 65536.) S(mxINT32_CLASS, int32_t, -0x1p31, 0x1p31) S(mxUINT32_CLASS, uint32_t, 0., 0x1p32) S(mxINT64_CLASS, int64_t, -0x1p63, 0x1p63) S(mxUINT64_CLASS, uint64_t, 0., 0x1p64)
      default: break; } }
  return r;
}
extern "C" {
int mexPrintf(const char* f, ...) { char b[512]; va_list v; va_start(v, f); int n = vsnprintf(b, sizeof b, f, v); va_end(v); g_mex->printed += b; return n; }
void mexErrMsgTxt(const char* m) { throw MexErr{m}; }
void mexErrMsgIdAndTxt(const char*, const char* f, ...) { char b[512]; va_list v; va_start(v, f); vsnprintf(b, sizeof b, f, v); va_end(v); throw MexErr{b}; }
void mexWarnMsgTxt(const char* m) { g_mex->printed += m; }
mxClassID mxGetClassID(const mxArray* a) { return a->c; }
bool mxIsSparse(const mxArray*) { return false; } bool mxIsChar(const mxArray* a) { return a->c == mxCHAR_CLASS; } bool mxIsComplex(const mxArray* a) { return a->cplx; } bool mxIsEmpty(const mxArray* a) { return a->n() == 0; } bool mxIsNumeric(const mxArray* a) { return a->c >= mxDOUBLE_CLASS && a->c <= mxUINT64_CLASS; }
bool mxIsDouble(const mxArray* a) { return a->c == mxDOUBLE_CLASS; } bool mxIsSingle(const mxArray* a) { return a->c == mxSINGLE_CLASS; } bool mxIsInt8(const mxArray* a) { return a->c == mxINT8_CLASS; } bool mxIsUint8(const mxArray* a) { return a->c == mxUINT8_CLASS; }
bool mxIsInt16(const mxArray* a) { return a->c == mxINT16_CLASS; } bool mxIsUint16(const mxArray* a) { return a->c == mxUINT16_CLASS; }
void* mxMalloc(size_t n) { void* p = malloc(n ? n : 1); g_mex->mem.push_back(p); return p; }
void* mxCalloc(size_t n, size_t s) { void* p = mxMalloc(n * s); memset(p, 0, n * s); return p; }
void mxFree(void* p) { for (auto& q : g_mex->mem) if (q == p) { free(p); q = nullptr; return; } }
char* mxArrayToString(const mxArray* a) { char* p = (char*)mxMalloc(a->s.size() + 1); memcpy(p, a->s.c_str(), a->s.size() + 1); return p; }
mwSize mxGetNumberOfElements(const mxArray* a) { return a->n(); } mwSize mxGetNumberOfDimensions(const mxArray* a) { return a->d.size(); } const mwSize* mxGetDimensions(const mxArray* a) { return a->d.data(); }
size_t mxGetM(const mxArray* a) { return a->d[0]; } size_t mxGetN(const mxArray* a) { return a->d[0] ? a->n() / a->d[0] : a->d[1]; } size_t mxGetElementSize(const mxArray* a) { return class_size(a->c) * (a->cplx && a->inter ? 2 : 1); }
void* mxGetData(const mxArray* a) { return ((mxArray*)a)->data(0); } void* mxGetImagData(const mxArray* a) { return a->im.size() ? ((mxArray*)a)->data(1) : nullptr; } double* mxGetPr(const mxArray* a) { return a->c == mxDOUBLE_CLASS ? (double*)mxGetData(a) : nullptr; } double mxGetScalar(const mxArray* a) { return elem((mxArray*)a, 0, 0); }
mxArray* mxCreateNumericArray(mwSize nd, const mwSize* d, mxClassID c, mxComplexity x) { return g_mex->make(c, x == mxCOMPLEX, std::vector<mwSize>(d, d + nd), 0); }
mxArray* mxCreateUninitNumericArray(mwSize nd, mwSize* d, mxClassID c, mxComplexity x) { return g_mex->make(c, x == mxCOMPLEX, std::vector<mwSize>(d, d + nd), 0xa5); }
mxArray* mxCreateNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity x) { return g_mex->make(c, x == mxCOMPLEX, {m, n}, 0); }
double* mxGetPi(const mxArray* a) { return a->c == mxDOUBLE_CLASS ? (double*)mxGetImagData(a) : nullptr; } bool mxIsClass(const mxArray* a, const char* name) { return !strcmp(class_name(a->c), name); } const char* mxGetClassName(const mxArray* a) { return class_name(a->c); }
int mxGetString(const mxArray* a, char* to, mwSize n) { if (a->c != mxCHAR_CLASS || !n) return 1; size_t k = a->s.size() < n - 1 ? a->s.size() : n - 1; memcpy(to, a->s.c_str(), k); to[k] = 0; return k < a->s.size(); } bool mxIsScalar(const mxArray* a) { return a->n() == 1; }
bool mxIsInt32(const mxArray* a) { return a->c == mxINT32_CLASS; } bool mxIsUint32(const mxArray* a) { return a->c == mxUINT32_CLASS; } bool mxIsInt64(const mxArray* a) { return a->c == mxINT64_CLASS; } bool mxIsUint64(const mxArray* a) { return a->c == mxUINT64_CLASS; } bool mxIsLogical(const mxArray* a) { return a->c == mxLOGICAL_CLASS; }
mxArray* mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity x) { return g_mex->make(c, x == mxCOMPLEX, {m, n}, 0xa5); } mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x) { return g_mex->make(mxDOUBLE_CLASS, x == mxCOMPLEX, {m, n}, 0); }
mxArray* mxCreateDoubleScalar(double v) { mxArray* a = g_mex->make(mxDOUBLE_CLASS, false, {1, 1}, 0); *(double*)a->data(0) = v; return a; }
mxArray* mxCreateString(const char* s) { return g_mex->text(s); }
mxArray* mxDuplicateArray(const mxArray* a) { mxArray* r = new mxArray(*a); g_mex->all.push_back(r); return r; }
void mxDestroyArray(mxArray* a) { if (a) a->gone = true; }       // kept until the call is over
int mexCallMATLAB(int nlhs, mxArray* l[], int nrhs, mxArray* const* r, const char* name) {
  std::string f = name; g_mex->calls.push_back(f); for (int i = 0; i < nrhs; i++) if (r[i]->gone) throw MexErr{"used an array it destroyed"};
  if (f == "disp") { g_mex->shown = r[0]; return 0; }
  if (f == "get") { l[0] = g_mex->text("longG"); return 0; }
  if (f == "format") { g_mex->calls.back() += " " + r[0]->s; return 0; }
  for (int c = mxDOUBLE_CLASS; c <= mxUINT64_CLASS; c++) if (f == class_name((mxClassID)c)) { l[0] = mex_convert(r[0], (mxClassID)c); return 0; }
  throw MexErr{"no function " + f};
}
}
