/* A stand-in for MATLAB's mex.h, enough for the functions under matlab/ and src/floatTop8.cpp. Arrays hold complex data apart or, for
   functions written for the newer interface, interleaved (see mexlib.hpp). */
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#ifdef __cplusplus
extern "C" {
#else
#include <stdbool.h>
#endif
typedef size_t mwSize;
typedef size_t mwIndex;
typedef bool mxLogical;
typedef uint16_t mxChar;
typedef enum { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS,
  mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef struct mxArray_tag mxArray;
void mexFunction(int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[]);
int mexPrintf(const char* fmt, ...);
void mexErrMsgTxt(const char* msg);
void mexErrMsgIdAndTxt(const char* id, const char* fmt, ...);
void mexWarnMsgTxt(const char* msg);
int mexCallMATLAB(int nlhs, mxArray* plhs[], int nrhs, mxArray* const* prhs, const char* name);
mxClassID mxGetClassID(const mxArray* a);
bool mxIsSparse(const mxArray* a); bool mxIsChar(const mxArray* a); bool mxIsComplex(const mxArray* a); bool mxIsEmpty(const mxArray* a); bool mxIsNumeric(const mxArray* a);
bool mxIsDouble(const mxArray* a); bool mxIsSingle(const mxArray* a); bool mxIsInt8(const mxArray* a); bool mxIsUint8(const mxArray* a); bool mxIsInt16(const mxArray* a); bool mxIsUint16(const mxArray* a);
char* mxArrayToString(const mxArray* a);
mwSize mxGetNumberOfElements(const mxArray* a); mwSize mxGetNumberOfDimensions(const mxArray* a); const mwSize* mxGetDimensions(const mxArray* a);
size_t mxGetM(const mxArray* a); size_t mxGetN(const mxArray* a); size_t mxGetElementSize(const mxArray* a);
void* mxGetData(const mxArray* a); void* mxGetImagData(const mxArray* a); double* mxGetPr(const mxArray* a); double mxGetScalar(const mxArray* a);
mxArray* mxCreateNumericArray(mwSize nd, const mwSize* d, mxClassID c, mxComplexity x);
mxArray* mxCreateUninitNumericArray(mwSize nd, mwSize* d, mxClassID c, mxComplexity x);
mxArray* mxCreateNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity x);
mxArray* mxCreateDoubleScalar(double v); mxArray* mxCreateString(const char* s); mxArray* mxDuplicateArray(const mxArray* a);
double* mxGetPi(const mxArray* a); bool mxIsClass(const mxArray* a, const char* name); const char* mxGetClassName(const mxArray* a); int mxGetString(const mxArray* a, char* to, mwSize n); bool mxIsScalar(const mxArray* a);
bool mxIsInt32(const mxArray* a); bool mxIsUint32(const mxArray* a); bool mxIsInt64(const mxArray* a); bool mxIsUint64(const mxArray* a); bool mxIsLogical(const mxArray* a);
mxArray* mxCreateUninitNumericMatrix(size_t m, size_t n, mxClassID c, mxComplexity x); mxArray* mxCreateDoubleMatrix(mwSize m, mwSize n, mxComplexity x);
void mxDestroyArray(mxArray* a); void mxFree(void* p); void* mxMalloc(size_t n); void* mxCalloc(size_t n, size_t s);
#ifdef __cplusplus
}
#endif
