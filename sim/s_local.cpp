#include "solver_impl.hpp"
#include <opengm/inference/icm.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/greedygremlin.hxx>
namespace slv { namespace {
template<class GM, class ACC> struct IcmS {
   typedef opengm::ICM<GM, ACC> I;
   static void draw(const ref::Model& m, Par& p) { p.k[0] = sim::choose(2); p.desc = p.k[0] ? "moves=factor" : "moves=variable"; drawStart(m, p); }
   static Box* make(const Models* m, const Par& p) { typename I::Parameter q(p.k[0] ? I::FACTOR : I::SINGLE_VARIABLE); q.startPoint_ = p.start; return mk<I>(m, q); }
};
template<class GM, class ACC> Solver icm(const char* n, bool mi, bool mul) { Solver s = { n, mi, mul, Local | Monotone | StartPar | StartCall | Reset | ArgBeforeInfer | Rerun, anyModel, IcmS<GM, ACC>::draw, IcmS<GM, ACC>::make, "ICM" }; return s; }
template<class GM, class ACC> struct BruS { typedef opengm::Bruteforce<GM, ACC> I; static Box* make(const Models* m, const Par&) { return mk<I>(m, typename I::Parameter()); } };
void bruGen(ref::GenOpt& o) { anyModel(o); o.maxStates = 80; }
template<class GM, class ACC> Solver bru(const char* n, bool mi, bool mul) { Solver s = { n, mi, mul, Exact | Reset | Rerun | NoStart, bruGen, noPar, BruS<GM, ACC>::make, "Bruteforce" }; return s; }
template<class GM, class ACC> struct GreS { typedef opengm::GreedyGremlin<GM, ACC> I; static Box* make(const Models* m, const Par&) { return mk<I>(m, typename I::Parameter()); } };
template<class GM, class ACC> Solver gre(const char* n, bool mi, bool mul) { Solver s = { n, mi, mul, ArgBeforeInfer | NoStart, anyModel, noPar, GreS<GM, ACC>::make, "GreedyGremlin" }; return s; }
Add a1(icm<GMA, opengm::Minimizer>("icm-min", true, false)), a2(icm<GMA, opengm::Maximizer>("icm-max", false, false)), a3(icm<GMM, opengm::Maximizer>("icm-mul-max", false, true));
Add b1(bru<GMA, opengm::Minimizer>("bruteforce-min", true, false)), b2(bru<GMA, opengm::Maximizer>("bruteforce-max", false, false)), b3(bru<GMM, opengm::Maximizer>("bruteforce-mul-max", false, true));
Add g1(gre<GMA, opengm::Minimizer>("gremlin-min", true, false));
}}
