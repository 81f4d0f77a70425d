// Stand-in for MATLAB's mex.h: the part of the C API the MEX functions use.
#ifndef STANDIN_MEX_H
#define STANDIN_MEX_H
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
typedef size_t mwSize;
typedef size_t mwIndex;
typedef enum { mxUNKNOWN_CLASS, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS } mxClassID;
typedef enum { mxREAL, mxCOMPLEX } mxComplexity;
typedef char mxChar;
typedef bool mxLogical;
struct mxArray_tag;
typedef struct mxArray_tag mxArray;
extern "C" {
void mexErrMsgTxt(char const *);
void mexErrMsgIdAndTxt(char const *, char const *, ...);
void mexWarnMsgTxt(char const *);
int mexPrintf(char const *, ...);
void mexLock(void);
void mexUnlock(void);
bool mexIsLocked(void);
int mexAtExit(void (*)(void));
mwSize mxGetNumberOfDimensions(mxArray const *);
mwSize const * mxGetDimensions(mxArray const *);
size_t mxGetNumberOfElements(mxArray const *);
size_t mxGetM(mxArray const *);
size_t mxGetN(mxArray const *);
size_t mxGetElementSize(mxArray const *);
mxClassID mxGetClassID(mxArray const *);
char const * mxGetClassName(mxArray const *);
bool mxIsComplex(mxArray const *);
bool mxIsChar(mxArray const *);
bool mxIsDouble(mxArray const *);
bool mxIsSingle(mxArray const *);
bool mxIsNumeric(mxArray const *);
bool mxIsLogical(mxArray const *);
bool mxIsUint64(mxArray const *);
bool mxIsInt64(mxArray const *);
bool mxIsInt32(mxArray const *);
bool mxIsEmpty(mxArray const *);
bool mxIsScalar(mxArray const *);
bool mxIsSparse(mxArray const *);
bool mxIsClass(mxArray const *, char const *);
bool mxIsLogicalScalar(mxArray const *);
bool mxIsLogicalScalarTrue(mxArray const *);
double mxGetScalar(mxArray const *);
void * mxGetData(mxArray const *);
double * mxGetPr(mxArray const *);
double * mxGetDoubles(mxArray const *);
char * mxArrayToString(mxArray const *);
int mxGetString(mxArray const *, char *, mwSize);
void * mxMalloc(size_t);
void * mxCalloc(size_t, size_t);
void mxFree(void *);
mxArray * mxCreateNumericMatrix(mwSize, mwSize, mxClassID, mxComplexity);
mxArray * mxCreateDoubleMatrix(mwSize, mwSize, mxComplexity);
mxArray * mxCreateDoubleScalar(double);
mxArray * mxCreateLogicalScalar(bool);
mxArray * mxCreateString(char const *);
void mxDestroyArray(mxArray *);
void mexFunction(int, mxArray **, int, mxArray const **);
}
#endif
