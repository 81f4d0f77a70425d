// Stand-in for the MATLAB side of the MEX boundary: arrays, errors, locks.
#ifndef MEXRT_HH
#define MEXRT_HH
#include "mex.h"
#include <string>
#include <vector>
#include <set>
#include <cstring>
#include <cmath>
#include <cstdarg>
struct mxArray_tag { mxClassID cls; bool cplx; std::vector<mwSize> dims; char * data; size_t bytes; };
struct MexError { std::string msg; };
extern "C" {
void mexFunction_flat(int, mxArray **, int, mxArray const **);
void mexFunction_mesh(int, mxArray **, int, mxArray const **);
void mexFunction_shell(int, mxArray **, int, mxArray const **);
void mexFunction_triangleground(int, mxArray **, int, mxArray const **);
}
namespace mx {
  extern long locks; extern bool erred;   // lock count, whether an error was raised in this call
  extern std::set<mxArray *> live;        // every array alive
  mxArray * make(mwSize r, mwSize c, mxClassID k);
  mxArray * num(double v, mxClassID k = mxDOUBLE_CLASS);
  mxArray * mat(mwSize r, mwSize c, std::vector<double> const & v);
  mxArray * str(std::string const & s);
  mxArray * logical(bool b);
  mxArray * handle(uint64_t v);
  mxArray * dup(mxArray const * a);
  void clear();                           // destroys every array and every MATLAB allocation
  size_t esize(mxClassID k);
}
#endif
