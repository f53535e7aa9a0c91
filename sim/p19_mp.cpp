#include "solver_impl.hpp"
#include "p19.hpp"
#include <opengm/operations/integrator.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#ifndef MP_GM
#define MP_GM GMA
#define MP_ACC opengm::Minimizer
#define MP_NAME "bp-min"
#define MP_MIN true
#define MP_MUL false
#define MP_RULE opengm::BeliefPropagationUpdateRules
#define MP_FLAGS 0
#endif
namespace slv { namespace {
typedef opengm::MessagePassing<MP_GM, MP_ACC, MP_RULE<MP_GM, MP_ACC>, opengm::MaxDistance> I;
void gen(ref::GenOpt& o) { anyModel(o); o.acyclic = true; o.order0 = true; if(MP_MUL) o.positive = true; o.maxVars = 6; }
// number of factors on the longest chain of factors (upper bound of the rounds a message needs)
size_t chain(const ref::Model& m) {
   size_t best = 0;
   for(size_t v = 0; v < m.L.size(); ++v) { // walk the forest from v
      std::vector<size_t> d(m.L.size(), size_t(-1)), q(1, v); d[v] = 0;
      for(size_t h = 0; h < q.size(); ++h) for(size_t f = 0; f < m.F.size(); ++f) { const std::vector<size_t>& w = m.F[f].v; if(std::find(w.begin(), w.end(), q[h]) != w.end()) for(size_t k = 0; k < w.size(); ++k) if(d[w[k]] == size_t(-1)) { d[w[k]] = d[q[h]] + 1; best = std::max(best, d[w[k]]); q.push_back(w[k]); } }
   }
   return best;
}
void draw(const ref::Model& m, Par& p) {
   static const double damp[] = { 0, 0.3, 0.7, 0.5 };
   p.k[1] = sim::choose(4); p.k[2] = sim::choose(2); p.k[3] = sim::choose(2); p.k[4] = sim::choose(2); p.k[5] = sim::choose(2); p.k[6] = p.k[1] == 0 ? sim::choose(2) : 0;
   p.k[7] = p.k[1] ? 250 : chain(m) + 1;              // rounds after which the messages must be exact
   p.k[0] = p.k[7] + (sim::choose(3) ? 0 : sim::choose(20));
   for(size_t i = 0; i < m.L.size(); ++i) p.start.push_back(i);
   if(p.k[5]) for(size_t i = m.L.size(); i > 1; --i) std::swap(p.start[i - 1], p.start[sim::choose(i)]);
   p.desc = sim::fmt("%s rounds=%d(enough %d) damping=%g normalise=%d bound=%g order=", p.k[4] ? "tree" : p.k[2] ? "sequential" : "parallel", int(p.k[0]), int(p.k[7]), damp[p.k[1]], int(p.k[3]), p.k[6] ? 1e-9 : 0.0);
   for(size_t i = 0; i < p.start.size(); ++i) p.desc += sim::fmt("%zu", p.start[i]);
}
Box* make(const Models* m, const Par& p) {
   static const double damp[] = { 0, 0.3, 0.7, 0.5 };
   I::Parameter q(p.k[0], p.k[6] ? 1e-9 : 0.0, damp[p.k[1]]);
   q.inferSequential_ = p.k[2]; q.useNormalization_ = opengm::Tribool(p.k[3] ? true : false);
   if(p.k[4] == 0) q.isAcyclic_ = opengm::Tribool(false); // otherwise found out: tree schedule
   if(p.k[5]) q.sortedNodeList_ = p.start;
   return mkM<I>(m, q);
}
Solver s = { MP_NAME, MP_MIN, MP_MUL, MP_FLAGS, gen, draw, make, MP_NAME };
Add a(s);
}}
