// The MEX function of mesh, compiled against the stand-in mex.h.
#define mexFunction mexFunction_mesh
#include "mex_mesh.cc"
