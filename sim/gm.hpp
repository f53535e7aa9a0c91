// Building opengm models from the reference model and comparing the two.
#pragma once
#include "model.hpp"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/adder.hxx>
#include <opengm/operations/multiplier.hxx>
#include <opengm/operations/minimizer.hxx>
#include <opengm/operations/maximizer.hxx>
#include <opengm/functions/explicit_function.hxx>
#include <opengm/functions/potts.hxx>
#include <opengm/functions/pottsn.hxx>
#include <opengm/functions/pottsg.hxx>
#include <opengm/functions/absolute_difference.hxx>
#include <opengm/functions/squared_difference.hxx>
#include <opengm/functions/truncated_absolute_difference.hxx>
#include <opengm/functions/truncated_squared_difference.hxx>
#include <opengm/functions/sparsemarray.hxx>
#include <opengm/functions/constant.hxx>
#include <map>

namespace gmx {
template<class GM> struct Fn {
   typedef typename GM::ValueType T; typedef typename GM::IndexType I; typedef typename GM::LabelType L;
   typedef opengm::ExplicitFunction<T, I, L> Explicit;
   typedef opengm::PottsFunction<T, I, L> Potts;
   typedef opengm::PottsNFunction<T, I, L> PottsN;
   typedef opengm::PottsGFunction<T, I, L> PottsG;
   typedef opengm::AbsoluteDifferenceFunction<T, I, L> AbsDiff;
   typedef opengm::SquaredDifferenceFunction<T, I, L> SqDiff;
   typedef opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> TruncAbs;
   typedef opengm::TruncatedSquaredDifferenceFunction<T, I, L> TruncSq;
   typedef opengm::SparseFunction<T, I, L, std::map<size_t, T> > Sparse;
   typedef opengm::ConstantFunction<T, I, L> Constant;
};
template<class F> F makeExplicit(const ref::Function& r) {
   if(r.shape.empty()) { F f; f = F(r.t[0]); return f; }
   F f(r.shape.begin(), r.shape.end());
   ref::Lab l(r.shape.size(), 0); size_t i = 0;
   do { f(l.begin()) = static_cast<typename F::ValueType>(r.t[i++]); } while(ref::next(l, r.shape));
   return f;
}
template<class GM> typename GM::FunctionIdentifier addExplicit(GM& gm, const ref::Function& r) { return gm.addFunction(makeExplicit<typename Fn<GM>::Explicit>(r)); }

// calls act(f) with the concrete opengm function object
template<class GM, class ACT> void withFunction(const ref::Function& r, ACT& act) {
   typedef Fn<GM> N; typedef typename GM::ValueType T;
   switch(r.shape.empty() ? int(ref::Explicit) : r.kind) {
   case ref::Potts: { typename N::Potts f(r.shape[0], r.shape[1], T(r.p[0]), T(r.p[1])); act(f); return; }
   case ref::PottsN: { typename N::PottsN f(r.shape.begin(), r.shape.end(), T(r.p[0]), T(r.p[1])); act(f); return; }
   case ref::PottsG: { typename N::PottsG f(r.shape.begin(), r.shape.end()); ref::Lab l(r.shape.size(), 0); size_t i = 0; do f.setByLabel(l.begin(), T(r.t[i++])); while(ref::next(l, r.shape)); act(f); return; }
   case ref::AbsDiff: { typename N::AbsDiff f(r.shape[0], r.shape[1], T(r.p[0])); act(f); return; }
   case ref::SqDiff: { typename N::SqDiff f(r.shape[0], r.shape[1], T(r.p[0])); act(f); return; }
   case ref::TruncAbs: { typename N::TruncAbs f(r.shape[0], r.shape[1], T(r.p[0]), T(r.p[1])); act(f); return; }
   case ref::TruncSq: { typename N::TruncSq f(r.shape[0], r.shape[1], T(r.p[0]), T(r.p[1])); act(f); return; }
   case ref::Sparse: { typename N::Sparse f(r.shape.begin(), r.shape.end(), T(r.p[0])); ref::Lab l(r.shape.size(), 0); size_t i = 0; do { if(r.t[i] != r.p[0]) f.insert(l.begin(), T(r.t[i])); ++i; } while(ref::next(l, r.shape)); act(f); return; }
   case ref::Constant: { typename N::Constant f(r.shape.begin(), r.shape.end(), T(r.p[0])); act(f); return; }
   default: { typename N::Explicit f = makeExplicit<typename N::Explicit>(r); act(f); return; }
   }
}
template<class GM> struct AddAct { GM& gm; typename GM::FunctionIdentifier id; AddAct(GM& g) : gm(g) {} template<class F> void operator()(const F& f) { id = gm.addFunction(f); } };
template<class GM> typename GM::FunctionIdentifier addAny(GM& gm, const ref::Function& r) { AddAct<GM> a(gm); withFunction<GM>(r, a); return a.id; }

template<class GM> typename GM::SpaceType makeSpace(const ref::Model& m, const opengm::DiscreteSpace<typename GM::IndexType, typename GM::LabelType>*) { return typename GM::SpaceType(m.L.begin(), m.L.end()); }
template<class GM> typename GM::SpaceType makeSpace(const ref::Model& m, const opengm::SimpleDiscreteSpace<typename GM::IndexType, typename GM::LabelType>*) { return typename GM::SpaceType(m.L.size(), m.L.empty() ? 1 : m.L[0]); }

// ANY: GM supports all kinds, else only explicit functions
template<class GM, bool ANY> struct Adder { static typename GM::FunctionIdentifier add(GM& gm, const ref::Function& r) { return addAny(gm, r); } };
template<class GM> struct Adder<GM, false> { static typename GM::FunctionIdentifier add(GM& gm, const ref::Function& r) { return addExplicit(gm, r); } };
template<class GM, bool ANY> void build(const ref::Model& m, GM& gm) {
   gm = GM(makeSpace<GM>(m, static_cast<const typename GM::SpaceType*>(0)));
   std::vector<typename GM::FunctionIdentifier> ids;
   for(size_t i = 0; i < m.fn.size(); ++i) ids.push_back(Adder<GM, ANY>::add(gm, m.fn[i]));
   for(size_t f = 0; f < m.F.size(); ++f) gm.addFactor(ids[m.F[f].fn], m.F[f].v.begin(), m.F[f].v.end());
}
inline bool same(double a, double b) { return a == b || (a != a && b != b); }

// Compares every query; returns an empty string if all agree.
// `only`: the factors that are expected in the variables' lists of factors; adjacency: whether those lists are judged at all.
template<class GM> std::string compare(const GM& gm, const ref::Model& m, size_t samples = 6, bool exact = true, const std::vector<char>* only = 0, bool adjacency = true) {
   using sim::fmt;
   sim::Harness h;
   if(gm.numberOfVariables() != m.L.size()) return fmt("numberOfVariables()=%zu, expected %zu", size_t(gm.numberOfVariables()), m.L.size());
   if(gm.numberOfFactors() != m.F.size()) return fmt("numberOfFactors()=%zu, expected %zu", size_t(gm.numberOfFactors()), m.F.size());
   for(size_t i = 0; i < m.L.size(); ++i) if(gm.numberOfLabels(i) != m.L[i]) return fmt("numberOfLabels(%zu)=%zu, expected %zu", i, size_t(gm.numberOfLabels(i)), m.L[i]);
   for(size_t f = 0; f < m.F.size(); ++f) {
      const std::vector<size_t>& v = m.F[f].v; const ref::Function& fn = m.fn[m.F[f].fn];
      if(gm[f].numberOfVariables() != v.size() || gm.numberOfVariables(f) != v.size()) return fmt("factor %zu has order %zu, expected %zu", f, size_t(gm[f].numberOfVariables()), v.size());
      for(size_t i = 0; i < v.size(); ++i) {
         if(gm[f].variableIndex(i) != v[i] || gm.variableOfFactor(f, i) != v[i]) return fmt("factor %zu variable %zu is %zu, expected %zu", f, i, size_t(gm[f].variableIndex(i)), v[i]);
         if(gm[f].numberOfLabels(i) != m.L[v[i]]) return fmt("factor %zu numberOfLabels(%zu)=%zu, expected %zu", f, i, size_t(gm[f].numberOfLabels(i)), m.L[v[i]]);
         if(gm[f].shape(i) != m.L[v[i]]) return fmt("factor %zu shape(%zu)=%zu, expected %zu", f, i, size_t(gm[f].shape(i)), m.L[v[i]]);
      }
      if(gm[f].size() != fn.size()) return fmt("factor %zu size()=%zu, expected %zu", f, size_t(gm[f].size()), fn.size());
      ref::Lab l(std::max<size_t>(1, v.size()), 0); ref::Lab ll(v.size(), 0); size_t k = 0;
      do { for(size_t i = 0; i < ll.size(); ++i) l[i] = ll[i]; double got = double(gm[f](l.begin())), want = double(typename GM::ValueType(fn.t[k]));
         if(exact ? !same(got, want) : std::fabs(got - want) > 1e-5 * (1 + std::fabs(want))) return fmt("factor %zu (%s) entry %zu is %.17g, expected %.17g", f, fn.kind < ref::NKinds ? ref::kindName(fn.kind) : "user", k, got, want); ++k; } while(ref::next(ll, fn.shape));
   }
   if(adjacency) for(size_t i = 0; i < m.L.size(); ++i) {
      std::vector<size_t> want; for(size_t f = 0; f < m.F.size(); ++f) if((!only || (*only)[f]) && std::find(m.F[f].v.begin(), m.F[f].v.end(), i) != m.F[f].v.end()) want.push_back(f);
      if(gm.numberOfFactors(i) != want.size()) return fmt("variable %zu is connected to %zu factors, expected %zu", i, size_t(gm.numberOfFactors(i)), want.size());
      std::vector<size_t> got; for(size_t k = 0; k < want.size(); ++k) got.push_back(gm.factorOfVariable(i, k));
      std::sort(got.begin(), got.end());
      if(got != want) return fmt("variable %zu: wrong set of connected factors", i);
   }
   if(gm.factorOrder() != m.maxOrder()) return fmt("factorOrder()=%zu, expected %zu", size_t(gm.factorOrder()), m.maxOrder());
   if(exact) for(size_t s = 0; s < samples; ++s) {
      ref::Lab x(m.L.size()); for(size_t i = 0; i < x.size(); ++i) x[i] = s == 0 ? 0 : s == 1 ? m.L[i] - 1 : (s * 7 + i * 3 + s * i) % m.L[i];
      double got = double(gm.evaluate(x.begin())), want = m.eval(x);
      if(!same(got, double(typename GM::ValueType(want)))) return fmt("evaluate() = %.17g, expected %.17g", got, want);
   }
   return std::string();
}
} // namespace gmx
