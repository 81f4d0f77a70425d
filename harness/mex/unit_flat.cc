// The MEX function of flat, compiled against the stand-in mex.h.
#define mexFunction mexFunction_flat
#include "mex_flat.cc"
