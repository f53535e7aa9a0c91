#include "solver_impl.hpp"
#include <opengm/inference/auxiliary/minstcutboost.hxx>
#include <opengm/inference/graphcut.hxx>
#include <opengm/inference/alphaexpansion.hxx>
#include <opengm/inference/alphabetaswap.hxx>
namespace slv { namespace {
typedef opengm::MinSTCutBoost<size_t, double, opengm::KOLMOGOROV> KO;
typedef opengm::GraphCut<GMA, opengm::Minimizer, KO> Cut;
typedef opengm::AlphaExpansion<GMA, Cut> AE;
typedef opengm::AlphaBetaSwap<GMA, Cut> AS;
void aeGen(ref::GenOpt& o) { anyModel(o); o.uniformLabels = true; o.minLabels = 2; o.maxLabels = 4; o.maxOrder = 2; o.energy = ref::Metric; o.allKinds = false; }
void aeDraw(const ref::Model& m, Par& p) {
   p.k[0] = sim::choose(5); p.k[1] = sim::choose(3); p.k[2] = sim::choose(3); p.k[3] = sim::choose(100); p.k[4] = sim::choose(100);
   p.desc = sim::fmt("maxSteps=%d init=%d order=%d", p.k[0] ? int(p.k[0]) : 1000, int(p.k[1]), int(p.k[2]));
   drawStart(m, p);
}
Box* aeMake(const Models* m, const Par& p) {
   AE::Parameter q(p.k[0] ? p.k[0] : 1000);
   q.labelInitialType_ = p.hasStart ? AE::Parameter::EXPLICIT_LABEL : p.k[1] == 0 ? AE::Parameter::DEFAULT_LABEL : p.k[1] == 1 ? AE::Parameter::RANDOM_LABEL : AE::Parameter::LOCALOPT_LABEL;
   q.label_ = p.start; q.randSeedOrder_ = p.k[3]; q.randSeedLabel_ = p.k[4];
   size_t L = m->a.numberOfVariables() ? m->a.numberOfLabels(0) : 0;
   if(p.k[2] == 1) q.orderType_ = AE::Parameter::RANDOM_ORDER;
   else if(p.k[2] == 2) { q.orderType_ = AE::Parameter::EXPLICIT_ORDER; for(size_t i = 0; i < L; ++i) q.labelOrder_.push_back(L - 1 - i); }
   return mk<AE>(m, q);
}
void asDraw(const ref::Model&, Par& p) { p.k[0] = sim::choose(5); p.desc = sim::fmt("maxIter=%d", p.k[0] ? int(p.k[0]) : 1000); }
Box* asMake(const Models* m, const Par& p) { AS::Parameter q; q.maxNumberOfIterations_ = p.k[0] ? p.k[0] : 1000; return mk<AS>(m, q); }
Solver s1 = { "alphaexpansion", true, false, Local | Monotone | StartPar | StartCall | Reset | ArgBeforeInfer | Random | Rerun, aeGen, aeDraw, aeMake, "AlphaExpansion" };
Solver s2 = { "alphabetaswap", true, false, Local | Monotone | StartCall | Reset | ArgBeforeInfer | Rerun, aeGen, asDraw, asMake, "AlphaBetaSwap" };
Add a1(s1), a2(s2);
}}
