#include "solver_impl.hpp"
#include <opengm/inference/gibbs.hxx>
namespace slv { namespace {
template<class GM, class ACC> struct S {
   typedef opengm::Gibbs<GM, ACC> I;
   static void draw(const ref::Model& m, Par& p) {
      p.k[0] = sim::choose(40); p.k[1] = sim::choose(10); p.k[2] = sim::choose(2); p.k[3] = sim::choose(3) == 2 ? 1 : 0; p.k[4] = p.k[3] ? sim::range(1, std::max<long>(1, long(p.k[0]))) : 10; if(p.k[0] == 0) p.k[3] = 0;
      p.desc = sim::fmt("steps=%d burnin=%d %s", int(p.k[0]), int(p.k[1]), p.k[2] ? "cyclic" : "random"); if(p.k[3]) p.desc += sim::fmt(" temperature periods=%d", int(p.k[4]));
      drawStart(m, p);
   }
   static Box* make(const Models* m, const Par& p) { typename I::Parameter q(p.k[0], p.k[1], p.k[3], 0.1, 1, p.k[4], p.k[2] ? I::Parameter::CYCLIC : I::Parameter::RANDOM, p.start); return mk<I>(m, q); }
};
template<class GM, class ACC> Solver gibbs(const char* n, bool mi, bool mul) { Solver s = { n, mi, mul, StartPar | StartCall | Reset | ArgBeforeInfer | Random | Rerun, anyModel, S<GM, ACC>::draw, S<GM, ACC>::make, "Gibbs" }; return s; }
Add a(gibbs<GMA, opengm::Minimizer>("gibbs-min", true, false)), b(gibbs<GMM, opengm::Maximizer>("gibbs-mul-max", false, true));
}}
