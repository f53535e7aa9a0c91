// P01: models with learnable, constraint, soft-constraint and field-of-experts functions.
#include "h5common.hpp"
#include <opengm/graphicalmodel/weights.hxx>
#include <opengm/functions/learnable/lpotts.hxx>
#include <opengm/functions/learnable/lunary.hxx>
#include <opengm/functions/learnable/lweightedsum_of_functions.hxx>
#include <opengm/functions/fieldofexperts.hxx>
#include <opengm/functions/singlesitefunction.hxx>
#include <opengm/functions/soft_constraint_functions/sum_constraint_function.hxx>
#include <opengm/functions/soft_constraint_functions/label_cost_function.hxx>
#include <opengm/functions/constraint_functions/label_order_function.hxx>
#include <opengm/functions/constraint_functions/num_labels_limitation_function.hxx>
#include <opengm/functions/constraint_functions/linear_constraint_function.hxx>
using namespace sim;
using namespace h5c;
namespace {
typedef double T; typedef size_t I; typedef size_t L;
typedef opengm::ExplicitFunction<T, I, L> FE;
typedef opengm::functions::learnable::LPotts<T, I, L> FLP;
typedef opengm::functions::learnable::LUnary<T, I, L> FLU;
typedef opengm::functions::learnable::LWeightedSumOfFunctions<T, I, L> FLW;
typedef opengm::FoEFunction<T, I, L> FF;
typedef opengm::SumConstraintFunction<T, I, L> FS;
typedef opengm::LabelCostFunction<T, I, L> FC;
typedef opengm::LabelOrderFunction<T, I, L> FO;
typedef opengm::NumLabelsLimitationFunction<T, I, L> FN;
typedef opengm::LinearConstraintFunction<T, I, L> FX;
typedef opengm::meta::TypeListGenerator<FE, FLP, FLU, FLW, FF, FS, FC, FO, FN, FX>::type TL;
typedef opengm::meta::TypeListGenerator<FX, FN, FO, FLW, FLU, FE, FC, FS, FF, FLP>::type TLO;
typedef opengm::GraphicalModel<T, opengm::Adder, TL, opengm::DiscreteSpace<I, L> > GmS;
typedef opengm::GraphicalModel<T, opengm::Adder, TLO, opengm::DiscreteSpace<I, L> > GmO;
typedef opengm::learning::Weights<T> W;

T val() { return T(range(-8, 8)) / 4; }
std::vector<T> vals(size_t n) { std::vector<T> v; for(size_t i = 0; i < n; ++i) v.push_back(val()); return v; }
struct Gen {
   ref::Model m; W w; size_t nW; std::string what;
   Gen() : nW(1 + choose(6)) { w = W(nW); for(size_t i = 0; i < nW; ++i) w.setWeight(i, val()); }
   std::vector<size_t> ids(size_t n) { std::vector<size_t> v; for(size_t i = 0; i < n; ++i) v.push_back(choose(nW)); return v; }
   // tabulates f, then adds it to both models
   template<class GM, class F> void add(GM& gm, const F& f, const std::vector<size_t>& v, const char* name) {
      ref::Function r; r.kind = ref::Explicit; for(size_t i = 0; i < v.size(); ++i) r.shape.push_back(m.L[v[i]]);
      ref::Lab l(r.shape.size(), 0), q; do { q = l; q.push_back(0); r.t.push_back(f(q.begin())); } while(ref::next(l, r.shape));
      ref::Factor x; x.fn = m.fn.size(); x.v = v; m.fn.push_back(r); m.F.push_back(x);
      typename GM::FunctionIdentifier id = gm.addFunction(f); gm.addFactor(id, v.begin(), v.end()); what += name; what += ' ';
   }
};
std::vector<size_t> scope(size_t n, size_t k) { std::vector<size_t> v; for(size_t i = 0; i < n && v.size() < k; ++i) if(choose(n - i) < k - v.size()) v.push_back(i); return v; }
template<class GM> void addOne(GM& gm, Gen& g) {
   size_t n = g.m.L.size(); unsigned k = choose(10);
   std::vector<size_t> v = scope(n, k == 2 ? 1 : k == 1 || k == 7 ? 2 : 1 + choose(std::min<size_t>(3, n))), sh; for(size_t i = 0; i < v.size(); ++i) sh.push_back(g.m.L[v[i]]);
   bool same = true; for(size_t i = 0; i < sh.size(); ++i) same = same && sh[i] == sh[0]; size_t mx = *std::max_element(sh.begin(), sh.end());
   switch(k) {
   case 0: { FE f(sh.begin(), sh.end()); ref::Lab l(sh.size(), 0); do f(l.begin()) = val(); while(ref::next(l, sh)); g.add(gm, f, v, "explicit"); break; }
   case 1: { if(v.size() < 2 || !same) return; size_t c = choose(4); std::vector<size_t> id = g.ids(c); FLP f(g.w, sh[0], id, vals(c)); g.add(gm, f, v, "lpotts"); break; }
   case 2: { if(choose(2)) { // features and weights per label; weights of all labels must differ
               std::vector<opengm::functions::learnable::FeaturesAndIndices<T, I> > fi(sh[0]); size_t next = 0;
               for(size_t l = 0; l < sh[0]; ++l) while(next < g.nW && choose(3) < 2 && fi[l].features.size() < 2) { fi[l].features.push_back(val()); fi[l].weightIds.push_back(next++); }
               FLU f(g.w, fi); g.add(gm, f, v, "lunary-per-label");
            } else { bool first = sh[0] > 1 && choose(2); size_t nf = 1 + choose(2); size_t s2[] = { sh[0] - first, nf }; marray::Marray<size_t> wi(s2, s2 + 2); for(size_t i = 0; i < wi.size(); ++i) wi(i) = choose(g.nW);
               marray::Marray<T> fe(&nf, &nf + 1); for(size_t i = 0; i < nf; ++i) fe(i) = val(); FLU f(g.w, sh[0], wi, fe, first); g.add(gm, f, v, "lunary"); } break; }
   case 3: { size_t c = choose(4); std::vector<marray::Marray<T> > fe; for(size_t i = 0; i < c; ++i) { marray::Marray<T> a(sh.begin(), sh.end()); for(size_t j = 0; j < a.size(); ++j) a(j) = val(); fe.push_back(a); }
             std::vector<size_t> id = g.ids(c); FLW f(sh, g.w, id, fe); g.add(gm, f, v, "lweightedsum"); break; }
   case 4: { if(!same) return; size_t ne = 1 + choose(3); FF f(vals(ne * v.size()), vals(ne), sh[0]); g.add(gm, f, v, "foe"); break; }
   case 5: { bool share = choose(2); size_t tot = 0; for(size_t i = 0; i < sh.size(); ++i) tot += sh[i]; std::vector<T> c = vals(share ? mx : tot); T lambda = val(), bound = val();
             if(same && choose(2)) { FS f(sh.size(), sh[0], c.begin(), c.end(), share, lambda, bound); g.add(gm, f, v, "sumconstraint"); } else { FS f(sh.begin(), sh.end(), c.begin(), c.end(), share, lambda, bound); g.add(gm, f, v, "sumconstraint"); } break; }
   case 6: { bool single = choose(2), uni = same && choose(2); std::vector<T> c = vals(mx + choose(2)); size_t l = choose(mx);
             if(single && uni) { FC f(sh.size(), sh[0], l, c[0]); g.add(gm, f, v, "labelcost"); } else if(single) { FC f(sh.begin(), sh.end(), l, c[0]); g.add(gm, f, v, "labelcost"); }
             else if(uni) { FC f(sh.size(), sh[0], c.begin(), c.end()); g.add(gm, f, v, "labelcost"); } else { FC f(sh.begin(), sh.end(), c.begin(), c.end()); g.add(gm, f, v, "labelcost"); } break; }
   case 7: { if(v.size() < 2) return; std::vector<T> o = vals(mx); T a = val(), b = val(); FO f(sh[0], sh[1], o, a, b); g.add(gm, f, v, "labelorder"); break; }
   case 8: { T a = val(), b = val(); size_t lim = 1 + choose(mx); if(same && choose(2)) { FN f(sh.size(), sh[0], lim, a, b); g.add(gm, f, v, "numlabels"); } else { FN f(sh.begin(), sh.end(), lim, a, b); g.add(gm, f, v, "numlabels"); } break; }
   default: { size_t c = choose(3); FX::LinearConstraintsContainerType cs(c);
             for(size_t i = 0; i < c; ++i) { typedef FX::LinearConstraintType LC; size_t nv = 1 + choose(3); for(size_t j = 0; j < nv; ++j) { LC::IndicatorVariableType iv; size_t np = 1 + choose(2); for(size_t q = 0; q < np; ++q) { size_t p = choose(v.size()); iv.add(p, choose(sh[p])); }
                   iv.setLogicalOperatorType(choose(3) == 0 ? LC::IndicatorVariableType::Or : choose(2) ? LC::IndicatorVariableType::Not : LC::IndicatorVariableType::And); cs[i].add(iv, val()); }
                cs[i].setBound(val()); cs[i].setConstraintOperator(choose(3) == 0 ? LC::LinearConstraintOperatorType::Equal : choose(2) ? LC::LinearConstraintOperatorType::GreaterEqual : LC::LinearConstraintOperatorType::LessEqual); }
             T a = val(), b = val(); FX f(sh.begin(), sh.end(), cs, a, b); g.add(gm, f, v, "linearconstraint"); break; }
   }
}
template<class GM, class F> struct Pos { enum { V = opengm::meta::GetIndexInTypeList<typename GM::FunctionTypeList, F>::value }; };
// the user's job after loading: learnable functions get their weights
template<class GM> void weigh(const GM& gm, const W& w) {
   for(size_t f = 0; f < gm.numberOfFactors(); ++f) switch(int(gm[f].functionType())) {
      case Pos<GM, FLP>::V: gm[f].template function<Pos<GM, FLP>::V>().setWeights(w); break;
      case Pos<GM, FLU>::V: gm[f].template function<Pos<GM, FLU>::V>().setWeights(w); break;
      case Pos<GM, FLW>::V: gm[f].template function<Pos<GM, FLW>::V>().setWeights(w); break;
   }
}
template<class GM> void check(const char* who, const char* sig, const std::string& path, const Gen& g, bool must) {
   GM l; std::string e; try { opengm::hdf5::load(l, path, "gm"); } catch(std::exception& x) { e = std::string("threw ") + x.what(); }
   if(!e.empty()) { if(must) violation(std::string(sig) + "-lost", "%s: load %s", who, e.c_str()); return; }
   weigh(l, g.w); e = gmx::compare(l, g.m); if(!e.empty()) violation(std::string(sig) + "-wrong", "%s: loaded model differs: %s", who, e.c_str());
}
template<class GM, class OTHER> void go() {
   Gen g; size_t n = 1 + choose(4); bool uni = choose(2); size_t u = 1 + choose(4); for(size_t i = 0; i < n; ++i) g.m.L.push_back(uni ? u : 1 + choose(4));
   GM gm(typename GM::SpaceType(g.m.L.begin(), g.m.L.end())); size_t nf = 1 + choose(6); for(size_t i = 0; i < nf; ++i) addOne(gm, g);
   sample("special functions: %s", g.what.c_str()); const std::string path = "/sim/s.h5";
   where("special"); std::string e = gmx::compare(gm, g.m); if(!e.empty()) violation("special-build", "model differs from its own functions: %s", e.c_str());
   simfs::plan(simfs::Plan()); try { opengm::hdf5::save(gm, path, "gm"); } catch(std::exception& x) { violation("special-clean-save", "saving without any fault failed: %s", x.what()); }
   std::vector<int64_t> ops = opCounts(); bool acked = true;
   if(choose(3) == 2) { simfs::Plan p = drawPlan(ops, false); simfs::plan(p); ev("save with %s", planStr(p).c_str()); simfs::remove(path); try { opengm::hdf5::save(gm, path, "gm"); } catch(std::exception&) { acked = false; } bool fired = simfs::fired(); simfs::heal(); if(fired) count("probe.special-save-fault"); }
   where("special-load"); nontrivial();
   simfs::put("/sim/later.h5", simfs::exists(path) ? simfs::get(path) : simfs::Bytes());
   if(choose(2)) check<GM>("special functions", "special", "/sim/later.h5", g, acked); else check<OTHER>("special functions into another type order", "special-other", "/sim/later.h5", g, acked);
   if(acked && choose(3) == 2) { simfs::plan(simfs::Plan()); { GM x; opengm::hdf5::load(x, path, "gm"); } ops = opCounts(); simfs::Plan p = drawPlan(ops, true); simfs::plan(p); ev("load with %s", planStr(p).c_str()); where("special-load-fault");
      GM l; bool ok = true; try { opengm::hdf5::load(l, path, "gm"); } catch(std::exception&) { ok = false; } simfs::heal(); if(ok) { weigh(l, g.w); e = gmx::compare(l, g.m); if(!e.empty()) violation("special-fault-wrong", "load under faults: %s", e.c_str()); } 
      where("special-retry"); check<GM>("special functions, retry", "special-retry", path, g, true); }
   // saved again from the loaded model
   if(acked && choose(3) == 2) { where("special-again"); GM l; opengm::hdf5::load(l, path, "gm"); opengm::hdf5::save(l, "/sim/again.h5", "gm"); check<GM>("loaded, saved and loaded again", "special-again", "/sim/again.h5", g, true); }
   std::string lk; size_t hs = h5l::leaked(lk); if(hs) violation("handle-leak", "%zu HDF5 handles never closed: %s", hs, lk.c_str());
}
}
void p01Special() { if(choose(2)) go<GmS, GmO>(); else go<GmO, GmS>(); }
