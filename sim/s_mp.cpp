#include "solver_impl.hpp"
#include <opengm/inference/messagepassing/messagepassing.hxx>
#ifndef MP_GM
#define MP_GM GMA
#define MP_ACC opengm::Minimizer
#define MP_NAME "bp-min"
#define MP_MIN true
#define MP_MUL false
#define MP_RULE opengm::BeliefPropagationUpdateRules
#define MP_FLAGS 0
#endif
namespace slv { namespace {
typedef opengm::MessagePassing<MP_GM, MP_ACC, MP_RULE<MP_GM, MP_ACC>, opengm::MaxDistance> I;
void gen(ref::GenOpt& o) { anyModel(o); o.order0 = true; if(sim::choose(2)) o.acyclic = true; if(MP_MUL) o.positive = true; }
void draw(const ref::Model& m, Par& p) {
   p.k[0] = sim::range(1, 12); p.k[1] = sim::choose(3); p.k[2] = sim::choose(2); p.k[3] = sim::choose(2); p.k[4] = sim::choose(3);
   for(size_t i = 0; i < m.L.size(); ++i) p.start.push_back(i); for(size_t i = m.L.size(); i > 1; --i) std::swap(p.start[i - 1], p.start[sim::choose(i)]);
   p.k[5] = sim::choose(2);
   p.desc = sim::fmt("steps=%d damping=%g sequential=%d normalise=%d acyclic=%d%s", int(p.k[0]), p.k[1] == 0 ? 0.0 : p.k[1] == 1 ? 0.3 : 0.7, int(p.k[2]), int(p.k[3]), int(p.k[4]), p.k[5] ? " nodeorder" : "");
}
Box* make(const Models* m, const Par& p) {
   I::Parameter q(p.k[0], 0.0, p.k[1] == 0 ? 0.0 : p.k[1] == 1 ? 0.3 : 0.7);
   q.inferSequential_ = p.k[2]; q.useNormalization_ = p.k[3] ? opengm::Tribool(true) : opengm::Tribool(false);
   if(p.k[4] == 1) q.isAcyclic_ = opengm::Tribool(false);
   if(p.k[5]) q.sortedNodeList_ = p.start;
   return mkM<I>(m, q);
}
Solver s = { MP_NAME, MP_MIN, MP_MUL, (MP_FLAGS) | Rerun | Reset | NoStart, gen, draw, make, "MessagePassing" };
// forests with enough rounds to be exact
void fGen(ref::GenOpt& o) { anyModel(o); o.acyclic = true; o.order0 = true; if(MP_MUL) o.positive = true; o.maxVars = 6; }
void fDraw(const ref::Model& m, Par& p) { draw(m, p); p.k[0] = 2 * (m.L.size() + m.F.size()) + 2; p.k[1] = 0; p.k[4] = p.k[4] == 1 ? 1 : 0; p.desc += sim::fmt(" -> steps=%d damping=0", int(p.k[0])); }
Solver fs = { "forest-" MP_NAME, MP_MIN, MP_MUL, Exact | Rerun | Reset | NoStart, fGen, fDraw, make, "MessagePassingForest" };
Add a(s), fa(fs);
}}
