#include "mexrt.hh"
namespace mx {
  long locks = 0; bool erred = false; std::set<mxArray *> live; static std::set<void *> mem;
  size_t esize(mxClassID k)
  {
    switch (k) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2;
      case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; case mxDOUBLE_CLASS: case mxINT64_CLASS: case mxUINT64_CLASS: return 8; default: return 8; }
  }
  mxArray * make(mwSize r, mwSize c, mxClassID k)
  {
    mxArray * a = new mxArray_tag; a->cls = k; a->cplx = false; a->dims = {r, c}; a->bytes = r * c * esize(k);
    a->data = a->bytes ? (char *)calloc(1, a->bytes) : nullptr; live.insert(a); return a;
  }
  mxArray * num(double v, mxClassID k)
  {
    mxArray * a = make(1, 1, k);
    switch (k) {
      case mxLOGICAL_CLASS: *(bool *)a->data = v != 0; break;
      case mxINT8_CLASS: *(int8_t *)a->data = (int8_t)v; break; case mxUINT8_CLASS: *(uint8_t *)a->data = (uint8_t)v; break;
      case mxINT16_CLASS: *(int16_t *)a->data = (int16_t)v; break; case mxUINT16_CLASS: *(uint16_t *)a->data = (uint16_t)v; break;
      case mxINT32_CLASS: *(int32_t *)a->data = (int32_t)v; break; case mxUINT32_CLASS: *(uint32_t *)a->data = (uint32_t)v; break;
      case mxINT64_CLASS: *(int64_t *)a->data = (int64_t)v; break; case mxUINT64_CLASS: *(uint64_t *)a->data = (uint64_t)v; break;
      case mxSINGLE_CLASS: *(float *)a->data = (float)v; break; default: *(double *)a->data = v;
    }
    return a;
  }
  mxArray * mat(mwSize r, mwSize c, std::vector<double> const & v)
  { mxArray * a = make(r, c, mxDOUBLE_CLASS); for (size_t i = 0; i < r * c; ++i) ((double *)a->data)[i] = i < v.size() ? v[i] : 0; return a; }
  mxArray * str(std::string const & s)
  { mxArray * a = make(1, s.size(), mxCHAR_CLASS); for (size_t i = 0; i < s.size(); ++i) ((uint16_t *)a->data)[i] = (unsigned char)s[i]; return a; }
  mxArray * logical(bool b) { return num(b, mxLOGICAL_CLASS); }
  mxArray * handle(uint64_t v) { mxArray * a = make(1, 1, mxUINT64_CLASS); memcpy(a->data, &v, 8); return a; }
  mxArray * dup(mxArray const * s) { mxArray * a = make(s->dims[0], s->dims[1], s->cls); if (a->bytes) memcpy(a->data, s->data, a->bytes); return a; }
  void clear()
  {
    for (mxArray * a : live) { free(a->data); delete a; }
    live.clear(); for (void * p : mem) free(p); mem.clear();
  }
}
using namespace mx;
extern "C" {
void mexErrMsgTxt(char const * m) { erred = true; throw MexError{m}; }
void mexErrMsgIdAndTxt(char const *, char const * f, ...) { char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); erred = true; throw MexError{b}; }
void mexWarnMsgTxt(char const *) {}
int mexPrintf(char const *, ...) { return 0; }
void mexLock(void) { ++locks; }
void mexUnlock(void) { --locks; }
bool mexIsLocked(void) { return locks > 0; }
int mexAtExit(void (*)(void)) { return 0; }
mwSize mxGetNumberOfDimensions(mxArray const * a) { return a->dims.size(); }
mwSize const * mxGetDimensions(mxArray const * a) { return a->dims.data(); }
size_t mxGetNumberOfElements(mxArray const * a) { size_t n = 1; for (mwSize d : a->dims) n *= d; return n; }
size_t mxGetM(mxArray const * a) { return a->dims[0]; }
size_t mxGetN(mxArray const * a) { size_t n = 1; for (size_t i = 1; i < a->dims.size(); ++i) n *= a->dims[i]; return n; }
size_t mxGetElementSize(mxArray const * a) { return esize(a->cls); }
mxClassID mxGetClassID(mxArray const * a) { return a->cls; }
char const * mxGetClassName(mxArray const * a)
{
  static char const * n[] = {"unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle"};
  return n[a->cls];
}
bool mxIsComplex(mxArray const * a) { return a->cplx; }
bool mxIsChar(mxArray const * a) { return a->cls == mxCHAR_CLASS; }
bool mxIsDouble(mxArray const * a) { return a->cls == mxDOUBLE_CLASS; }
bool mxIsSingle(mxArray const * a) { return a->cls == mxSINGLE_CLASS; }
bool mxIsNumeric(mxArray const * a) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
bool mxIsLogical(mxArray const * a) { return a->cls == mxLOGICAL_CLASS; }
bool mxIsUint64(mxArray const * a) { return a->cls == mxUINT64_CLASS; }
bool mxIsInt64(mxArray const * a) { return a->cls == mxINT64_CLASS; }
bool mxIsInt32(mxArray const * a) { return a->cls == mxINT32_CLASS; }
bool mxIsEmpty(mxArray const * a) { return mxGetNumberOfElements(a) == 0; }
bool mxIsScalar(mxArray const * a) { return mxGetNumberOfElements(a) == 1; }
bool mxIsSparse(mxArray const *) { return false; }
bool mxIsClass(mxArray const * a, char const * n) { return !strcmp(mxGetClassName(a), n); }
bool mxIsLogicalScalar(mxArray const * a) { return a->cls == mxLOGICAL_CLASS && mxGetNumberOfElements(a) == 1; }
bool mxIsLogicalScalarTrue(mxArray const * a) { return mxIsLogicalScalar(a) && *(bool const *)a->data; }
double mxGetScalar(mxArray const * a)
{
  if (!a->data) return 0; // undefined in MATLAB; the callers check the size
  switch (a->cls) {
    case mxLOGICAL_CLASS: return *(bool *)a->data; case mxCHAR_CLASS: return *(uint16_t *)a->data; case mxINT8_CLASS: return *(int8_t *)a->data; case mxUINT8_CLASS: return *(uint8_t *)a->data;
    case mxINT16_CLASS: return *(int16_t *)a->data; case mxUINT16_CLASS: return *(uint16_t *)a->data; case mxINT32_CLASS: return *(int32_t *)a->data; case mxUINT32_CLASS: return *(uint32_t *)a->data;
    case mxINT64_CLASS: return (double)*(int64_t *)a->data; case mxUINT64_CLASS: return (double)*(uint64_t *)a->data; case mxSINGLE_CLASS: return *(float *)a->data; default: return *(double *)a->data;
  }
}
void * mxGetData(mxArray const * a) { return a->data; }
double * mxGetPr(mxArray const * a) { return (double *)a->data; }
double * mxGetDoubles(mxArray const * a) { return a->cls == mxDOUBLE_CLASS ? (double *)a->data : nullptr; }
char * mxArrayToString(mxArray const * a)
{
  if (a->cls != mxCHAR_CLASS) return nullptr;
  size_t n = mxGetNumberOfElements(a); char * p = (char *)mxMalloc(n + 1);
  for (size_t i = 0; i < n; ++i) p[i] = (char)((uint16_t *)a->data)[i]; p[n] = 0; return p;
}
int mxGetString(mxArray const * a, char * b, mwSize n)
{ char * s = mxArrayToString(a); if (!s || !n) return 1; size_t l = strlen(s); strncpy(b, s, n - 1); b[n - 1] = 0; return l >= n; }
void * mxMalloc(size_t n) { void * p = malloc(n ? n : 1); mem.insert(p); return p; }
void * mxCalloc(size_t n, size_t s) { void * p = calloc(n ? n : 1, s ? s : 1); mem.insert(p); return p; }
void mxFree(void * p) { if (p) { mem.erase(p); free(p); } }
mxArray * mxCreateNumericMatrix(mwSize r, mwSize c, mxClassID k, mxComplexity) { return make(r, c, k); }
mxArray * mxCreateDoubleMatrix(mwSize r, mwSize c, mxComplexity) { return make(r, c, mxDOUBLE_CLASS); }
mxArray * mxCreateDoubleScalar(double v) { return num(v); }
mxArray * mxCreateLogicalScalar(bool b) { return logical(b); }
mxArray * mxCreateString(char const * s) { return str(s); }
void mxDestroyArray(mxArray * a) { if (a && live.erase(a)) { free(a->data); delete a; } }
}
