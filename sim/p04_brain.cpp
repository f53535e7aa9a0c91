// The converter's main, callable from the simulation.
#define main conv_brain
#include <converter/brain.cxx>
#undef main
int conv_brain_(int n, const char** a) { return conv_brain(n, const_cast<char**>(a)); }
