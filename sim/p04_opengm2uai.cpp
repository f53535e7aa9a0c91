// The converter's main, callable from the simulation.
#define main conv_opengm2uai
#include <converter/opengm2uai.cxx>
#undef main
