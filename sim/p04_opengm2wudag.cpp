// The converter's main, callable from the simulation.
#define main conv_opengm2wudag
#include <converter/opengm2wudag.cxx>
#undef main
