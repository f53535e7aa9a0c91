#include "solver_impl.hpp"
#include <list>
#include <set>
#include <opengm/inference/partition-move.hxx>
namespace slv { namespace {
typedef opengm::PartitionMove<GMA, opengm::Minimizer> PM;
void pmGen(ref::GenOpt& o) { anyModel(o); o.minLabels = o.maxLabels = 5; o.uniformLabels = true; o.maxVars = 5; o.maxOrder = 2; o.maxFactors = 12; o.maxStates = 4000; o.noUnaries = true; o.energy = ref::AnyPotts; }
Box* pmMake(const Models* m, const Par&) { return mk<PM>(m, PM::Parameter()); }
Solver s1 = { "partitionmove", true, false, Local | Monotone | ArgBeforeInfer | NoStart | Rerun, pmGen, noPar, pmMake, "PartitionMove" };
Add a1(s1);
}}
