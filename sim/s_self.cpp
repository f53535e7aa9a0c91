#include "solver_impl.hpp"
#include <opengm/inference/self_fusion.hxx>
#include <opengm/inference/infandflip.hxx>
#include <opengm/inference/messagepassing/messagepassing.hxx>
#include <opengm/inference/icm.hxx>
namespace slv { namespace {
void gen(ref::GenOpt& o) { anyModel(o); o.minLabels = 2; o.maxFactors = 6; }
typedef opengm::MessagePassing<GMA, opengm::Minimizer, opengm::BeliefPropagationUpdateRules<GMA, opengm::Minimizer>, opengm::MaxDistance> BP;
typedef opengm::SelfFusion<BP> SF;
void sfDraw(const ref::Model&, Par& p) { p.k[0] = sim::range(1, 8); p.k[1] = sim::range(1, 3); p.k[2] = sim::range(1, 3); p.k[3] = sim::range(1, 10); p.desc = sim::fmt("bpsteps=%d fuseNth=%d depth=%d stopIt=%d", int(p.k[0]), int(p.k[1]), int(p.k[2]), int(p.k[3])); }
Box* sfMake(const Models* m, const Par& p) { BP::Parameter b(p.k[0], 0.0, 0.3); SF::Parameter q(p.k[1], SF::LazyFlipperFusion, b, p.k[2]); q.numStopIt_ = p.k[3]; return mk<SF>(m, q); }
typedef opengm::ICM<GMA, opengm::Minimizer> IC;
typedef opengm::InfAndFlip<GMA, opengm::Minimizer, IC> IF;
void ifDraw(const ref::Model& m, Par& p) { p.k[0] = sim::range(1, 3); p.k[1] = sim::choose(2); p.desc = sim::fmt("depth=%d warm=%d", int(p.k[0]), int(p.k[1])); drawStart(m, p); }
Box* ifMake(const Models* m, const Par& p) { IF::Parameter q(p.k[0]); q.warmStartableInf_ = p.k[1] != 0; Box* b = mk<IF>(m, q); if(p.hasStart) { std::unique_ptr<Box> g(b); b->setStart(p.start); g.release(); } return b; }
Solver s1 = { "selffusion-bp", true, false, Monotone | NoStart, gen, sfDraw, sfMake, "SelfFusion" };
Solver s2 = { "infandflip-icm", true, false, Local | Monotone | StartPar | StartCall, gen, ifDraw, ifMake, "InfAndFlip" };
Add a1(s1), a2(s2);
}}
