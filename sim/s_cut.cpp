#include "solver_impl.hpp"
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/qpbo.hxx>
namespace slv { namespace {
void gcGen(ref::GenOpt& o) { anyModel(o); o.minLabels = o.maxLabels = 2; o.uniformLabels = true; o.maxOrder = 3; o.energy = ref::Submodular; o.maxVars = 7; o.maxFactors = 12; }
void gcMaxGen(ref::GenOpt& o) { gcGen(o); o.maxOrder = 2; o.energy = ref::Supermodular; }
void qpGen(ref::GenOpt& o) { gcGen(o); o.maxOrder = 2; }
template<class CUT, class ACC> struct GcS { typedef opengm::GraphCut<GMA, ACC, CUT> I; static Box* make(const Models* m, const Par&) { return mk<I>(m, typename I::Parameter(1.0)); } };
template<class CUT> Solver gc(const char* n) { Solver s = { n, true, false, Exact | NoHookStep | NoStart, gcGen, noPar, GcS<CUT, opengm::Minimizer>::make, "GraphCut" }; return s; }
typedef opengm::MinSTCutBoost<size_t, double, opengm::PUSH_RELABEL> PR; typedef opengm::MinSTCutBoost<size_t, double, opengm::EDMONDS_KARP> EK; typedef opengm::MinSTCutBoost<size_t, double, opengm::KOLMOGOROV> KO;
template<class CUT> Solver gcMax(const char* n) { Solver s = { n, false, false, Exact | NoHookStep | NoStart, gcMaxGen, noPar, GcS<CUT, opengm::Maximizer>::make, "GraphCut" }; return s; }
template<class INF> struct QpBox : BoxT<INF> { QpBox(const GMA& gm) : BoxT<INF>(gm, typename INF::Parameter()) {} bool partial(std::vector<bool>& o) { this->inf.partialOptimality(o); return true; } };
void qpAnyGen(ref::GenOpt& o) { qpGen(o); o.energy = ref::General; }
template<class CUT> struct QpS { typedef opengm::QPBO<GMA, CUT> I; static Box* make(const Models* m, const Par&) { return new QpBox<I>(m->a); } };
template<class CUT> Solver qp(const char* n) { Solver s = { n, true, false, Exact | NoHookStep | NoStart, qpGen, noPar, QpS<CUT>::make, "QPBO" }; return s; }
template<class CUT> Solver qpAny(const char* n) { Solver s = { n, true, false, Persistent | NoHookStep | NoStart, qpAnyGen, noPar, QpS<CUT>::make, "QPBO-partial" }; return s; }
Add q4(qpAny<KO>("qpbo-partial-kolmogorov")), q5(qpAny<PR>("qpbo-partial-push-relabel"));
Add a4(gcMax<KO>("graphcut-max-kolmogorov")), a5(gcMax<PR>("graphcut-max-push-relabel")), q1(qp<KO>("qpbo-kolmogorov")), q2(qp<PR>("qpbo-push-relabel")), q3(qp<EK>("qpbo-edmonds-karp"));
Add a1(gc<PR>("graphcut-push-relabel")), a2(gc<EK>("graphcut-edmonds-karp")), a3(gc<KO>("graphcut-kolmogorov"));
}}
