// The MEX function of triangleground, compiled against the stand-in mex.h.
#define mexFunction mexFunction_triangleground
#include "mex_triangleground.cc"
