#include "solver_impl.hpp"
#include <iomanip>
#include <opengm/inference/dmc.hxx>
namespace slv { namespace {
// The stand-in for the multicut solver that DMC hands its components to: tries every partition.
template<class GM, class ACC> class Partitions : public opengm::Inference<GM, ACC> {
public:
   typedef ACC AccumulationType; typedef GM GraphicalModelType; OPENGM_GM_TYPE_TYPEDEFS;
   template<class G, class A> struct rebind { typedef Partitions<G, A> type; };
   struct Parameter { Parameter() {} template<class P> Parameter(const P&) {} };
   Partitions(const GM& gm, const Parameter& = Parameter()) : gm_(gm), best_(gm.numberOfVariables(), 0) {}
   std::string name() const { return "Partitions"; }
   const GM& graphicalModel() const { return gm_; }
   opengm::InferenceTermination infer() {
      const size_t n = gm_.numberOfVariables(); std::vector<LabelType> l(n, 0); ValueType v = gm_.evaluate(l); best_ = l;
      for(;;) {
         size_t i = n; while(i > 0) { --i; LabelType top = 0; for(size_t k = 0; k < i; ++k) top = std::max<LabelType>(top, l[k] + 1); if(l[i] < top && i > 0) { ++l[i]; for(size_t k = i + 1; k < n; ++k) l[k] = 0; break; } if(i == 0) return opengm::NORMAL; }
         if(n == 0) return opengm::NORMAL;
         ValueType w = gm_.evaluate(l); if(w < v) { v = w; best_ = l; }
      }
   }
   opengm::InferenceTermination arg(std::vector<LabelType>& x, const size_t = 1) const { x = best_; return opengm::NORMAL; }
private:
   const GM& gm_; std::vector<LabelType> best_;
};
typedef opengm::DMC<GMA, Partitions<GMA, opengm::Minimizer> > I;
void gen(ref::GenOpt& o) { anyModel(o); o.minLabels = o.maxLabels = 5; o.uniformLabels = true; o.maxVars = 5; o.minVars = 2; o.only2 = true; o.maxOrder = 2; o.order0 = false; o.maxFactors = 9; o.maxStates = 4000; o.noUnaries = true; o.energy = ref::AnyPotts; }
Box* make(const Models* m, const Par&) { return mk<I>(m, I::Parameter()); }
Solver s1 = { "dmc", true, false, Exact | ArgBeforeInfer | NoStart | NoHookStep | Rerun, gen, noPar, make, "DMC" };
Add a1(s1);
}}
