#include "solver_impl.hpp"
#ifdef TR_ADSAL
#include <opengm/inference/trws/trws_adsal.hxx>
#define TR_TYPE opengm::ADSal
#define TR_NAME "adsal"
#define TR_FAM "ADSal"
#elif defined(TR_NEST)
#include <opengm/inference/trws/smooth_nesterov.hxx>
#define TR_TYPE opengm::NesterovAcceleratedGradient
#define TR_NAME "nesterov"
#define TR_FAM "Nesterov"
#else
#include <opengm/inference/trws/trws_trws.hxx>
#define TR_TYPE opengm::TRWSi
#define TR_NAME "trwsi"
#define TR_FAM "TRWSi"
#endif
namespace slv { namespace {
typedef TR_TYPE<GMA, opengm::Minimizer> I;
void gen(ref::GenOpt& o) { anyModel(o); o.maxOrder = 2; o.order0 = false; o.unaries = true; o.minLabels = 2; o.connected = true; o.minVars = 2; o.duplicates = false; o.maxFactors = 5; o.grid = true; }
typedef I::Parameter::Storage St;
// k: 0 iterations, 1 decomposition, 2 precision, 3 fast computations, 4 relative precision, 5 inner iterations, 6 smoothing strategy, 7 gradient step, 8 lazy/normalisation/plain bits, 9 start smoothing or start duals
void draw(const ref::Model& m, Par& p) {
   p.k[0] = sim::range(1, 8); p.k[1] = sim::choose(2); p.k[2] = sim::choose(3); p.k[3] = sim::choose(2);
   if(ref::gridWidth(m) && sim::choose(2)) p.k[1] = 2;
   p.k[4] = sim::coin(1, 4); p.k[5] = sim::range(1, 3); p.k[6] = sim::choose(5); p.k[7] = sim::choose(3); p.k[8] = sim::choose(16); p.k[9] = sim::choose(4);
   p.desc = sim::fmt("iter=%d decomposition=%s eps=%d%s fast=%d inner=%d smoothing=%d step=%d bits=%x start=%d", int(p.k[0]), p.k[1] == 2 ? "grid" : p.k[1] ? "edge" : "general", int(p.k[2]), p.k[4] ? "(relative)" : "", int(p.k[3]), int(p.k[5]), int(p.k[6]), int(p.k[7]), unsigned(p.k[8]), int(p.k[9]));
}
Box* make(const Models* m, const Par& p) {
   double eps = p.k[2] == 0 ? 1.0 : p.k[2] == 1 ? 1e-6 : 0.1; bool absolute = !p.k[4];
   St::StructureType st = p.k[1] == 2 ? St::GRIDSTRUCTURE : p.k[1] ? St::EDGESTRUCTURE : St::GENERALSTRUCTURE;
#if defined(TR_ADSAL) || defined(TR_NEST)
   typedef I::Parameter::SmoothingParametersType SP;
   static const SP::SmoothingStrategyType strategy[] = { SP::ADAPTIVE_DIMINISHING, SP::WC_DIMINISHING, SP::ADAPTIVE_PRECISIONORIENTED, SP::WC_PRECISIONORIENTED, SP::FIXED };
   I::Parameter q(p.k[0], eps, absolute, p.k[5], st);
   q.smoothingStrategy() = strategy[p.k[6]]; if(p.k[6] == 2 || p.k[6] == 3) q.isAbsolutePrecision() = true; // the others refuse a relative precision
   static const double sv[] = { 0, 0, 0.5, 2 }; double start = sv[p.k[9]]; if(p.k[6] == 3) start = 0; if(p.k[6] == 4 && start == 0) start = 1; // documented restrictions
   q.setStartSmoothingValue(start); q.setFastComputations(p.k[3] != 0); q.lazyLPPrimalBoundComputation() = p.k[8] & 1; q.setCanonicalNormalization(p.k[8] & 2);
#ifdef TR_ADSAL
   q.lazyDerivativeComputation() = (p.k[8] & 4) != 0; q.maxNumberOfPresolveIterations() = p.k[8] & 8 ? 100 : 1;
#else
   static const I::Parameter::GradientStepType step[] = { I::Parameter::ADAPTIVE_STEP, I::Parameter::WC_STEP, I::Parameter::JOJIC_STEP };
   q.gradientStep_ = step[p.k[7]]; q.plainGradient_ = (p.k[8] & 4) != 0;
#endif
#else
   I::Parameter q(p.k[0], st, eps, absolute);
   q.fastComputations() = p.k[3] != 0; q.canonicalNormalization() = (p.k[8] & 2) != 0; if(p.k[8] & 1) q.minRelativeDualImprovement() = 0.01;
   if(p.k[9] == 3) { // start duals
      sim::Harness h; size_t n = St(Pick<GMA>::get(m), st).getDDVectorSize(); uint64_t x = p.k[8] * 77 + p.k[0] + 1;
      for(size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; q.initPoint_.push_back(double(int(x >> 40) % 17 - 8) / 4); }
   }
#endif
   return mk<I>(m, q);
}
Solver s = { TR_NAME, true, false, Bound | NoStart, gen, draw, make, TR_FAM };
Add a(s);
}}
