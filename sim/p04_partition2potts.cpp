// The converter's main, callable from the simulation.
#define main conv_partition2potts
#include <converter/partition2potts.cxx>
#undef main
