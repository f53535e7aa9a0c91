// Shared between p19.cpp and the instantiations in p19_mp.cpp.
#pragma once
#include "slvrun.hpp"
namespace p19 { enum { Sum = 1 << 20 }; } // Solver flag: sum-marginals
