#include "solver_impl.hpp"
#include <opengm/inference/dynamicprogramming.hxx>
#include <opengm/inference/astar.hxx>
namespace slv { namespace {
#ifndef TREE_ASTAR
void dpGen(ref::GenOpt& o) { anyModel(o); o.acyclic = true; o.maxOrder = 2; o.only2 = true; o.maxVars = 7; o.maxStates = 2000; o.order0 = false; }
template<class GM, class ACC> struct DpS {
   typedef opengm::DynamicProgramming<GM, ACC> I;
   static void draw(const ref::Model& m, Par& p) { p.k[0] = m.L.size() && sim::choose(2) ? 1 + sim::choose(m.L.size()) : 0; if(p.k[0]) p.desc = sim::fmt("root=%d", int(p.k[0] - 1)); }
   static Box* make(const Models* m, const Par& p) { typename I::Parameter q; if(p.k[0]) q.roots_.push_back(p.k[0] - 1); return mk<I>(m, q); }
};
template<class GM, class ACC> Solver dp(const char* n, bool mi, bool mul) { Solver s = { n, mi, mul, Exact | NoHookStep | Rerun | NoStart, dpGen, DpS<GM, ACC>::draw, DpS<GM, ACC>::make, "DynamicProgramming" }; return s; }
Add a1(dp<GMA, opengm::Minimizer>("dp-min", true, false)), a2(dp<GMA, opengm::Maximizer>("dp-max", false, false)), a3(dp<GMM, opengm::Maximizer>("dp-mul-max", false, true));
#else
void asGen(ref::GenOpt& o) { anyModel(o); }
// k: 0 heuristic, 1 further optima, 2 node order, 3 permutation, 4 tree factors, 5 heap size (0: the default)
template<class GM, class ACC, bool HEAP> struct AsS {
   typedef opengm::AStar<GM, ACC> I;
   static void draw(const ref::Model&, Par& p) {
      p.k[0] = sim::choose(3); p.k[1] = sim::choose(3); p.k[2] = sim::choose(4); p.k[3] = sim::choose(5040); p.k[4] = sim::choose(3) ? 0 : 1 + sim::choose(255); p.k[5] = HEAP ? sim::range(4, 24) : 0;
      p.desc = sim::fmt("heuristic=%d nopt=%d order=%d/%d tree=%x heap=%d", int(p.k[0]), int(p.k[1]), int(p.k[2]), int(p.k[3]), unsigned(p.k[4]), int(p.k[5]));
   }
   static size_t root(std::vector<size_t>& u, size_t i) { while(u[i] != i) i = u[i]; return i; }
   static Box* make(const Models* m, const Par& p) {
      typename I::Parameter q; q.heuristic_ = p.k[0] == 0 ? I::Parameter::DEFAULTHEURISTIC : p.k[0] == 1 ? I::Parameter::STANDARDHEURISTIC : I::Parameter::FASTHEURISTIC; q.numberOfOpt_ = 1 + p.k[1];
      const GM& gm = Pick<GM>::get(m);
      {
         sim::Harness h; size_t n = gm.numberOfVariables();
         if(p.k[2]) for(size_t i = 0; i < n; ++i) q.nodeOrder_.push_back(p.k[2] == 1 ? n - 1 - i : i);
         if(p.k[2] == 3) { size_t x = p.k[3]; for(size_t i = n; i > 1; --i) { std::swap(q.nodeOrder_[i - 1], q.nodeOrder_[x % i]); x /= i; } }
         if(p.k[4]) { // a forest of pairwise factors
            std::vector<size_t> u(n); for(size_t i = 0; i < n; ++i) u[i] = i;
            for(size_t f = 0; f < gm.numberOfFactors() && f < 8; ++f) if((p.k[4] >> f & 1) && gm[f].numberOfVariables() == 2) { size_t a = root(u, gm[f].variableIndex(0)), b = root(u, gm[f].variableIndex(1)); if(a != b) { u[a] = b; q.addTreeFactorId(f); } }
         }
         if(p.k[5]) q.maxHeapSize_ = p.k[5];
      }
      return mk<I>(m, q);
   }
};
template<class GM, class ACC, bool HEAP> Solver as(const char* n, bool mi, bool mul) { Solver s = { n, mi, mul, unsigned((HEAP ? 0 : Exact) | NoStart), asGen, AsS<GM, ACC, HEAP>::draw, AsS<GM, ACC, HEAP>::make, "AStar" }; return s; }
Add b1(as<GMA, opengm::Minimizer, false>("astar-min", true, false)), b2(as<GMA, opengm::Maximizer, false>("astar-max", false, false)), b3(as<GMA, opengm::Minimizer, true>("astar-heap", true, false));
#endif
}}
