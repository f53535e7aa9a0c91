#include "solver_impl.hpp"
#include <opengm/inference/lazyflipper.hxx>
namespace slv { namespace {
template<class GM, class ACC> struct S {
   typedef opengm::LazyFlipper<GM, ACC> I;
   static void draw(const ref::Model& m, Par& p) { p.k[0] = sim::range(1, 4); p.k[1] = sim::choose(2); p.desc = sim::fmt("depth=%d multi=%s", int(p.k[0]), p.k[1] ? "maybe" : "yes"); drawStart(m, p); }
   static Box* make(const Models* m, const Par& p) { typename I::Parameter q(p.k[0], p.k[1] ? opengm::Tribool(opengm::Tribool::Maybe) : opengm::Tribool(opengm::Tribool::True)); q.startingPoint_ = p.start; return mk<I>(m, q); }
};
void binGen(ref::GenOpt& o) { anyModel(o); if(sim::choose(2)) { o.minLabels = o.maxLabels = 2; o.uniformLabels = true; o.maxVars = 7; } }
template<class GM, class ACC> Solver lf(const char* n, bool mi, bool mul) { Solver s = { n, mi, mul, Local | Monotone | StartPar | StartCall | Reset | ArgBeforeInfer | Rerun, binGen, S<GM, ACC>::draw, S<GM, ACC>::make, "LazyFlipper" }; return s; }
Add a1(lf<GMA, opengm::Minimizer>("lazyflipper-min", true, false)), a2(lf<GMA, opengm::Maximizer>("lazyflipper-max", false, false)), a3(lf<GMM, opengm::Maximizer>("lazyflipper-mul-max", false, true));
}}
