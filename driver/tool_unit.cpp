// unit.cpp and the command line tool, for the verifier: the tool's main is a function like any other.
#define VF_TOOL
#define main vf_tool
#include "time.cpp"
#undef main
#include "unit.cpp"
