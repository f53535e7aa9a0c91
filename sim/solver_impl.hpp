// Included by the translation units that instantiate optimizers.
#pragma once
#include "gm.hpp"
#include "solvers.hpp"
#include <opengm/inference/inference.hxx>
#include <opengm/inference/visitors/visitors.hxx>

namespace slv {
// A user-defined function type: a table behind a seam.
template<class T, class I = size_t, class L = size_t>
class HookFunction : public opengm::FunctionBase<HookFunction<T, I, L>, T, I, L> {
public:
   typedef T ValueType; typedef T value_type; typedef I IndexType; typedef L LabelType;
   HookFunction() {}
   HookFunction(const std::vector<size_t>& s, const std::vector<double>& t) : shape_(s), t_(t.begin(), t.end()) {}
   size_t shape(size_t i) const { return shape_[i]; }
   size_t size() const { return t_.size(); }
   size_t dimension() const { return shape_.size(); }
   template<class It> T operator()(It it) const {
      size_t o = 0, st = 1; for(size_t i = 0; i < shape_.size(); ++i, ++it) { o += static_cast<size_t>(*it) * st; st *= shape_[i]; }
      if(evalHook) evalHook->onEval();
      if(o >= t_.size()) { sim::violation("label-out-of-range", "a user function was evaluated with an out-of-range label (offset %zu of %zu)", o, t_.size()); }
      return t_[o];
   }
private:
   std::vector<size_t> shape_; std::vector<T> t_;
};
} // namespace slv
namespace opengm { template<class T, class I, class L> struct FunctionRegistration<slv::HookFunction<T, I, L> > { enum ID { Id = opengm::FUNCTION_TYPE_ID_OFFSET + 9000 }; }; }
namespace slv {
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_4(opengm::ExplicitFunction<double>, opengm::PottsFunction<double>, opengm::TruncatedAbsoluteDifferenceFunction<double>, HookFunction<double>), opengm::DiscreteSpace<> > GMA;
typedef opengm::GraphicalModel<double, opengm::Multiplier, OPENGM_TYPELIST_2(opengm::ExplicitFunction<double>, HookFunction<double>), opengm::DiscreteSpace<> > GMM;
struct Models { GMA a; GMM m; bool mul; };
template<class GM> struct Pick;
template<> struct Pick<GMA> { static const GMA& get(const Models* m) { return m->a; } };
template<> struct Pick<GMM> { static const GMM& get(const Models* m) { return m->m; } };

template<class INF> class SimVisitor {
public:
   SimVisitor(Sink& s, Box& b) : s_(s), b_(b) {}
   void begin(INF&) { sim::Harness h; s_.on(Begin, b_); }
   size_t operator()(INF&) { sim::Harness h; return s_.on(Step, b_); }
   void end(INF&) { sim::Harness h; s_.on(End, b_); }
   void addLog(const std::string&) {}
   void log(const std::string& n, const double v) { sim::Harness h; s_.log(n.c_str(), v); }
private:
   Sink& s_; Box& b_;
};
// Passes every callback on to a shipped visitor, and tells the sink before and after.
template<class INF, class V> class Tee {
public:
   Tee(V& v, Sink& s, Box& b) : v_(v), s_(s), b_(b) {}
   void begin(INF& i) { { sim::Harness h; s_.on(Begin, b_); } v_.begin(i); { sim::Harness h; s_.log("visitor-left", 0); } }
   size_t operator()(INF& i) { { sim::Harness h; s_.on(Step, b_); } size_t r = v_(i); { sim::Harness h; s_.log("visitor-returned", double(r)); } return r; }
   void end(INF& i) { { sim::Harness h; s_.on(End, b_); } v_.end(i); { sim::Harness h; s_.log("visitor-left", 0); } }
   void addLog(const std::string& n) { v_.addLog(n); }
   void log(const std::string& n, const double v) { v_.log(n, v); }
private:
   V& v_; Sink& s_; Box& b_;
};
template<class INF> auto callReset(INF& i, int) -> decltype(i.reset(), bool()) { i.reset(); return true; }
template<class INF> bool callReset(INF&, long) { return false; }

template<class INF> struct BoxT : Box {
   typedef typename INF::GraphicalModelType GM;
   typedef typename GM::LabelType L;
   INF inf; size_t n;
   template<class P> BoxT(const GM& gm, const P& p) : inf(gm, p), n(gm.numberOfVariables()) {}
   int infer(Sink& s) { SimVisitor<INF> v(s, *this); return inf.infer(v); }
   int inferPlain() { return inf.infer(); }
   int inferTiming(const TimingSpec& t, TimingOut& o, Sink& s) {
      typedef opengm::visitors::TimingVisitor<INF> TV;
      TV tv(t.nth, 0, t.verbose, true, t.timeLimit, t.gapLimit);
      Tee<INF, TV> tee(tv, s, *this);
      int r = inf.infer(tee);
      o.ctime = tv.getConstructionTime(); o.times = tv.getTimes(); o.values = tv.getValues(); o.bounds = tv.getBounds(); o.iterations = tv.getIterations();
      typedef std::map<std::string, std::vector<double> > PM;
      for(PM::const_iterator it = tv.protocolMap().begin(); it != tv.protocolMap().end(); ++it) { const std::string& k = it->first; if(k != "ctime" && k != "times" && k != "values" && k != "bounds" && k != "iteration") { o.extra.push_back(k); o.extraVal.push_back(it->second); } }
      return r;
   }
   int inferVerbose(size_t nth, Sink& s) { typedef opengm::visitors::VerboseVisitor<INF> VV; VV v(nth); Tee<INF, VV> tee(v, s, *this); return inf.infer(tee); }
   int arg(ref::Lab& x, size_t k) { std::vector<L> l; int r = inf.arg(l, k); x.assign(l.begin(), l.end()); return r; }
   double value() { return inf.value(); }
   double bound() { return inf.bound(); }
   void setStart(const ref::Lab& x) { std::vector<L> l(x.begin(), x.end()); l.push_back(0); inf.setStartingPoint(l.begin()); }
   bool reset() { return callReset(inf, 0); }
   std::string name() { return inf.name(); }
};
template<class INF> struct BoxM : BoxT<INF> {
   template<class P> BoxM(const typename INF::GraphicalModelType& gm, const P& p) : BoxT<INF>(gm, p) {}
   static void copy(const typename INF::IndependentFactorType& f, std::vector<double>& o) { o.clear(); for(size_t i = 0; i < f.size(); ++i) o.push_back(f(i)); }
   int marginal(size_t v, std::vector<double>& o) { typename INF::IndependentFactorType f; int r = this->inf.marginal(v, f); copy(f, o); return r; }
   int factorMarginal(size_t v, std::vector<double>& o) {
      typename INF::IndependentFactorType f; int r = this->inf.factorMarginal(v, f);
      o.clear(); if(r != opengm::NORMAL) return r;
      std::vector<size_t> l(f.numberOfVariables() + 1, 0);
      for(size_t k = 0; k < f.size(); ++k) { size_t q = k; for(size_t d = 0; d < f.numberOfVariables(); ++d) { l[d] = q % f.numberOfLabels(d); q /= f.numberOfLabels(d); } o.push_back(f(l.begin())); }
      return r;
   }
};
template<class INF> Box* mk(const Models* m, const typename INF::Parameter& p) { return new BoxT<INF>(Pick<typename INF::GraphicalModelType>::get(m), p); }
template<class INF> Box* mkM(const Models* m, const typename INF::Parameter& p) { return new BoxM<INF>(Pick<typename INF::GraphicalModelType>::get(m), p); }

inline void anyModel(ref::GenOpt& o) { o.maxOrder = 3; o.maxVars = 5; o.maxLabels = 3; o.maxFactors = 8; o.maxStates = 300; }
inline void noPar(const ref::Model&, Par&) {}
inline void drawStart(const ref::Model& m, Par& p, bool optional = true) {
   if(optional && !sim::choose(2)) return;
   p.hasStart = true; p.start.resize(m.L.size()); for(size_t i = 0; i < m.L.size(); ++i) p.start[i] = sim::choose(m.L[i]);
   p.desc += " start="; for(size_t i = 0; i < p.start.size(); ++i) p.desc += sim::fmt("%zu", p.start[i]);
}
template<class V> std::vector<V> conv(const ref::Lab& x) { return std::vector<V>(x.begin(), x.end()); }
} // namespace slv
