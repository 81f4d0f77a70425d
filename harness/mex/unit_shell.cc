// The MEX function of shell, compiled against the stand-in mex.h.
#define mexFunction mexFunction_shell
#include "mex_shell.cc"
