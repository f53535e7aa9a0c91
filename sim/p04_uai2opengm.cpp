// The converter's main, callable from the simulation.
#define main conv_uai2opengm
#include <converter/uai2opengm.cxx>
#undef main
