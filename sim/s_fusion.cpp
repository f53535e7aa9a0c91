#include "solver_impl.hpp"
#include <opengm/inference/fusion_based_inf.hxx>
namespace slv { namespace {
#ifndef FG
#define FG 0
#endif
void gen(ref::GenOpt& o) { anyModel(o); o.maxVars = 6; o.unaries = sim::choose(2); o.minLabels = 2; }
template<class G> struct FS {
   typedef opengm::FusionBasedInf<GMA, G> I;
   static void draw(const ref::Model& m, Par& p) { p.k[0] = sim::range(1, 12); p.k[1] = sim::choose(4); p.k[2] = sim::choose(2); p.desc = sim::fmt("it=%d stop=%d", int(p.k[0]), int(p.k[1])); drawStart(m, p); }
   static Box* make(const Models* m, const Par& p) {
      typename I::FusionParameter fp; 
      typename I::Parameter q; q.numIt_ = p.k[0]; q.numStopIt_ = p.k[1]; 
      Box* b = mk<I>(m, q);
      if(p.hasStart) { std::unique_ptr<Box> g(b); b->setStart(p.start); g.release(); }
      return b;
   }
};
template<class G> Solver fb(const char* n, unsigned fl) { Solver s = { n, true, false, Monotone | StartPar | StartCall | ArgBeforeInfer | Rerun | fl, gen, FS<G>::draw, FS<G>::make, "FusionBasedInf" }; return s; }
using namespace opengm::proposal_gen;
typedef opengm::Minimizer MI;
#if FG == 0
Add a1(fb<AlphaExpansionGen<GMA, MI> >("fusion-alpha", 0)), a2(fb<AlphaBetaSwapGen<GMA, MI> >("fusion-swap", 0)), a3(fb<UpDownGen<GMA, MI> >("fusion-updown", 0));
#else
Add a4(fb<RandomGen<GMA, MI> >("fusion-random", Random)), a6(fb<NonUniformRandomGen<GMA, MI> >("fusion-nonuniform", Random));
#endif
}}
