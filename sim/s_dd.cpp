#include "solver_impl.hpp"
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/dualdecomposition/dualdecomposition_subgradient.hxx>
namespace slv { namespace {
#ifdef DD_VIEW
typedef opengm::DDDualVariableBlock2<marray::View<double, false> > Block;
#define DD_V "-view"
#else
typedef opengm::DDDualVariableBlock<marray::Marray<double> > Block;
#define DD_V ""
#endif
typedef opengm::DualDecompositionBase<GMA, Block>::SubGmType Sub;
#ifdef DD_CYCLIC
typedef opengm::Bruteforce<Sub, opengm::Minimizer> SI;
#define DD_NAME "dd-subgradient-blocks" DD_V
enum { Cyclic = 1 };
#else
typedef opengm::DynamicProgramming<Sub, opengm::Minimizer> SI;
#define DD_NAME "dd-subgradient" DD_V
enum { Cyclic = 0 };
#endif
typedef opengm::DualDecompositionSubGradient<GMA, SI, Block> I;
typedef opengm::DualDecompositionBaseParameter P0;
const char* const dname[] = { "manual", "tree", "spanningtrees", "blocks", "kfans", "manualvarclose", "manualvaropen" };
void gen(ref::GenOpt& o) { anyModel(o); o.maxOrder = Cyclic ? 3 : 2; o.order0 = Cyclic; o.unaries = true; o.minVars = 2; }
// k: 0 iterations, 1 decomposition, 2 step rule, 3 stride, 4 blocks or k, 5/6 sub-models of the factors or variables (3 bits each), 7 fill
void draw(const ref::Model& m, Par& p) {
   size_t order = 0; for(size_t f = 0; f < m.F.size(); ++f) order = std::max(order, m.F[f].v.size());
   p.k[0] = sim::range(1, 12); p.k[2] = sim::choose(5); p.k[3] = sim::choose(3); p.k[7] = sim::choose(2);
   if(Cyclic) { static const int d[] = { P0::MANUAL, P0::BLOCKS, P0::KFANS, P0::MANUALVARCLOSE, P0::MANUALVAROPEN, P0::SPANNINGTREES }; p.k[1] = d[sim::choose(6)]; if(p.k[1] == P0::KFANS && order > 2) p.k[1] = P0::BLOCKS; }
   else { static const int d[] = { P0::TREE, P0::SPANNINGTREES, P0::MANUAL }; p.k[1] = d[sim::choose(3)]; }
   p.k[4] = 1 + sim::choose(p.k[1] == P0::KFANS ? 3 : m.L.size());
   bool vars = p.k[1] == P0::MANUALVARCLOSE || p.k[1] == P0::MANUALVAROPEN;
   if(vars || p.k[1] == P0::MANUAL) for(size_t i = 0; i < (vars ? m.L.size() : m.F.size()) && i < 40; ++i) p.k[5 + i / 20] |= uint64_t(1 + sim::choose(7)) << 3 * (i % 20);
   p.desc = sim::fmt("iter=%d decomposition=%s step=%d stride=%d n=%d masks=%llo/%llo fill=%d", int(p.k[0]), dname[p.k[1]], int(p.k[2]), int(p.k[3]), int(p.k[4]), (unsigned long long)p.k[5], (unsigned long long)p.k[6], int(p.k[7]));
}
unsigned mask(const Par& p, size_t i) { unsigned m = i < 40 ? p.k[5 + i / 20] >> 3 * (i % 20) & 7 : 1; return m ? m : 1; }
size_t root(std::vector<size_t>& u, size_t i) { while(u[i] != i) i = u[i]; return i; }
Box* make(const Models* ms, const Par& p) {
   const GMA& gm = Pick<GMA>::get(ms);
   I::Parameter q; q.maximalNumberOfIterations_ = p.k[0]; q.decompositionId_ = P0::DecompositionId(p.k[1]);
   q.useAdaptiveStepsize_ = p.k[2] == 1; q.useProjectedAdaptiveStepsize_ = p.k[2] == 2; q.stepsizePrimalDualGapStride_ = p.k[2] == 3; q.stepsizeNormalizedSubgradient_ = p.k[2] == 4;
   q.stepsizeStride_ = p.k[3] == 0 ? 1 : p.k[3] == 1 ? 0.1 : 5; q.fillSubLabelings_ = p.k[7] != 0; q.numberOfBlocks_ = p.k[4]; q.k_ = p.k[4];
   {
      sim::Harness h;
      if(p.k[1] == P0::MANUAL) {
         // every factor goes to the drawn sub-models; without cycles for the tree solver, which gets a further sub-model where needed
         std::vector<std::vector<size_t> > u; std::vector<std::vector<size_t> >& s = q.subFactors_;
         for(size_t f = 0; f < gm.numberOfFactors(); ++f) {
            bool placed = false;
            for(size_t k = 0; ; ++k) {
               if(k >= 3 && placed) break;
               if(k < 3 && !(mask(p, f) >> k & 1)) continue;
               while(s.size() <= k) { s.push_back(std::vector<size_t>()); u.push_back(std::vector<size_t>(gm.numberOfVariables())); for(size_t i = 0; i < u.back().size(); ++i) u.back()[i] = i; }
               if(!Cyclic && gm[f].numberOfVariables() == 2) {
                  size_t a = root(u[k], gm[f].variableIndex(0)), b = root(u[k], gm[f].variableIndex(1));
                  if(a == b) continue;
                  u[k][a] = b;
               }
               s[k].push_back(f); placed = true;
            }
         }
         // variables only come with a factor: drop sub-models without any
         for(size_t k = s.size(); k-- > 0;) { bool any = false; for(size_t j = 0; j < s[k].size(); ++j) any = any || gm[s[k][j]].numberOfVariables(); if(!any && s[k].empty()) s.erase(s.begin() + k); }
      } else if(p.k[1] == P0::MANUALVARCLOSE || p.k[1] == P0::MANUALVAROPEN) {
         std::vector<std::set<size_t> >& s = q.subVariables_; s.resize(3);
         for(size_t v = 0; v < gm.numberOfVariables(); ++v) for(int k = 0; k < 3; ++k) if(mask(p, v) >> k & 1) s[k].insert(v);
         if(p.k[1] == P0::MANUALVAROPEN) for(size_t f = 0; f < gm.numberOfFactors(); ++f) { // an open block keeps the factors inside it: every factor needs one
            bool in = false;
            for(int k = 0; k < 3 && !in; ++k) { in = true; for(size_t j = 0; j < gm[f].numberOfVariables(); ++j) in = in && s[k].count(gm[f].variableIndex(j)); }
            if(!in) for(size_t j = 0; j < gm[f].numberOfVariables(); ++j) s[f % 3].insert(gm[f].variableIndex(j));
         }
         for(size_t k = 3; k-- > 0;) if(s[k].empty()) s.erase(s.begin() + k);
      }
   }
   return mk<I>(ms, q);
}
Solver s = { DD_NAME, true, false, Bound | NoStart, gen, draw, make, "DualDecomposition" };
Add a(s);
}}
