// P08: histories of fixing, freeing, locking and building modified models, with failing evaluations and allocations.
#include "solver_impl.hpp"
#include "slvrun.hpp"
#include "faults.hpp"
#include <opengm/graphicalmodel/graphicalmodel_manipulator.hxx>
#include <stack>
using namespace slv;
namespace {
using sim::choose; using sim::fmt;
template<class GM> struct Man {
   typedef opengm::GraphicalModelManipulator<GM> X; typedef typename X::MGM MGM; typedef typename GM::LabelType LT; typedef typename GM::IndexType IT; typedef std::vector<LT> Labels;
   const ref::Model& m; const GM& gm; Hub& hub; X* x; bool drop, locked, built, subs, broken; int tent; // tent: 0 none, 1 minimiser, 2 maximiser
   std::vector<char> fixed; ref::Lab label; std::string n, last;
   Man(const ref::Model& q, const GM& g, Hub& h, bool d) : m(q), gm(g), hub(h), drop(d), locked(false), built(false), subs(false), broken(false), tent(0), fixed(q.L.size()), label(q.L.size()), n(q.mul ? "mul" : "add") {
      sim::Lib l; x = new X(gm, drop ? X::DROP : choose(2) ? X::FIX : X::FIX); last = "construction"; }
   ~Man() { sim::Lib l; delete x; }
   void bad(const char* what, const std::string& msg) { sim::violation(n + ":" + what, "after %s: %s", last.c_str(), msg.c_str()); }
   void go(const std::string& w) { last = w; sim::where((n + ":" + w.substr(0, w.find('('))).c_str()); sim::ev("%s", w.c_str()); }
   double op(double a, double b) { return m.mul ? a * b : a + b; }
   // value of x over the factors that the modified model keeps
   double want(const ref::Lab& y) { double r = m.neutral(); for(size_t f = 0; f < m.F.size(); ++f) { bool keep = true; if(drop) for(size_t i = 0; i < m.F[f].v.size(); ++i) if(fixed[m.F[f].v[i]]) keep = false; if(keep) r = op(r, m.value(f, y)); } return r; }
   std::vector<size_t> freeVars() { std::vector<size_t> r; for(size_t i = 0; i < m.L.size(); ++i) if(!x->isFixed(IT(i))) r.push_back(i); return r; }
   // the best completion of a labelling of `fv` (user-fixed variables keep their labels)
   double best(const std::vector<size_t>& fv, const Labels& ml) { std::vector<size_t> shape(m.L); ref::Lab base(m.L.size(), 0); for(size_t i = 0; i < m.L.size(); ++i) if(fixed[i]) { shape[i] = 1; base[i] = label[i]; } for(size_t i = 0; i < fv.size(); ++i) { shape[fv[i]] = 1; base[fv[i]] = ml[i]; }
      ref::Lab d(m.L.size(), 0); bool first = true; double b = 0; do { ref::Lab y(base); for(size_t i = 0; i < y.size(); ++i) y[i] += d[i]; double e = m.eval(y); if(first || (tent == 1 ? e < b : e > b)) b = e; first = false; } while(ref::next(d, shape)); return b; }
   void flags() { if(x->isLocked() != locked) bad("locked", fmt("isLocked() is %d", int(!locked))); for(size_t i = 0; i < m.L.size(); ++i) if(bool(x->isFixed(IT(i))) != bool(fixed[i]) && !(tent && !fixed[i])) bad("fixed", fmt("isFixed(%zu) is %d", i, int(x->isFixed(IT(i))))); if(&x->getOriginalModel() != &gm) bad("original", "getOriginalModel() is another model"); }
   void shape(const MGM& g, const std::vector<size_t>& fv, const char* what) {
      if(g.numberOfVariables() != fv.size()) bad("variables", fmt("%s has %zu variables instead of %zu", what, size_t(g.numberOfVariables()), fv.size())); for(size_t i = 0; i < fv.size(); ++i) if(g.numberOfLabels(i) != m.L[fv[i]]) bad("labels", fmt("variable %zu of %s has %zu labels instead of %zu", i, what, size_t(g.numberOfLabels(i)), m.L[fv[i]]));
      for(size_t f = 0; f < g.numberOfFactors(); ++f) { size_t s = 1; for(size_t i = 0; i < g[f].numberOfVariables(); ++i) { size_t v = g[f].variableIndex(i); if(v >= fv.size() || (i && v <= g[f].variableIndex(i - 1))) bad("scope", fmt("factor %zu of %s has a broken scope", f, what)); if(g[f].numberOfLabels(i) != m.L[fv[v]] || g[f].shape(i) != m.L[fv[v]]) bad("shape", fmt("factor %zu of %s has a wrong shape", f, what)); s *= m.L[fv[v]]; } if(g[f].size() != s) bad("size", fmt("size() of factor %zu of %s is %zu instead of %zu", f, what, size_t(g[f].size()), s)); } }
   void mapped(const std::vector<size_t>& fv, const Labels& ml, const Labels& ol, double v) {
      if(ol.size() != m.L.size()) bad("map-size", fmt("the mapped labelling has %zu entries", ol.size())); ref::Lab y(ol.begin(), ol.end()); for(size_t i = 0; i < y.size(); ++i) { if(y[i] >= m.L[i]) bad("map-range", fmt("variable %zu is mapped to label %zu", i, y[i])); if(fixed[i] && y[i] != label[i]) bad("map-fixed", fmt("variable %zu was fixed to %zu, but is mapped to %zu", i, label[i], y[i])); }
      for(size_t i = 0; i < fv.size(); ++i) if(y[fv[i]] != ml[i]) bad("map-free", fmt("variable %zu has label %zu in the modified model, but is mapped to %zu", fv[i], size_t(ml[i]), y[fv[i]]));
      double w = want(y); sim::hashNum(v); if(!close(v, w)) bad(tent ? "energy-reduced" : "energy", fmt("the modified model gives %.12g, the original one %.12g", v, w)); if(tent) { double b = best(fv, ml); if(!close(w, b)) bad("tentacle", fmt("eliminated variables are completed to value %.12g, the best is %.12g", w, b)); } }
   template<class A> void each(const std::vector<size_t>& fv, A act) { std::vector<size_t> sh; size_t st = 1; for(size_t i = 0; i < fv.size(); ++i) { sh.push_back(m.L[fv[i]]); st = std::min<size_t>(st * m.L[fv[i]], 100000); }
      if(st <= 60) { ref::Lab l(fv.size(), 0); do act(Labels(l.begin(), l.end())); while(ref::next(l, sh)); } else for(int k = 0; k < 16; ++k) { Labels l; for(size_t i = 0; i < fv.size(); ++i) l.push_back(LT(choose(sh[i]))); act(l); } }
   void check() {
      flags(); if(broken || !locked) return;
      std::vector<size_t> fv = freeVars();
      if(built) { const MGM& g = x->getModifiedModel(); shape(g, fv, "the modified model"); each(fv, [&](const Labels& l) { Labels o(choose(2) ? 0 : choose(9), 1); double v; { sim::Lib q; v = g.evaluate(l.begin()); x->modifiedState2OriginalState(l, o); } mapped(fv, l, o, v); }); sim::count("probe.modified-model"); sim::nontrivial(); }
      if(subs) {
         size_t k = x->numberOfSubmodels(); std::vector<std::vector<size_t> > sv(k); std::vector<size_t> c(m.L.size(), 0); std::vector<char> seen(m.L.size()); size_t cc = 0; // components of the free variables
         for(size_t i = 0; i < fv.size(); ++i) if(!seen[fv[i]]) { std::vector<size_t> q(1, fv[i]); seen[fv[i]] = 1; while(!q.empty()) { size_t v = q.back(); q.pop_back(); c[v] = cc; for(size_t f = 0; f < m.F.size(); ++f) if(std::count(m.F[f].v.begin(), m.F[f].v.end(), v)) for(size_t j = 0; j < m.F[f].v.size(); ++j) { size_t w = m.F[f].v[j]; if(!seen[w] && !x->isFixed(IT(w))) { seen[w] = 1; q.push_back(w); } } } ++cc; }
         if(k != std::max<size_t>(cc, 1)) bad("submodels", fmt("%zu submodels for %zu components", k, cc)); for(size_t i = 0; i < fv.size(); ++i) sv[c[fv[i]]].push_back(fv[i]); for(size_t s = 0; s < k; ++s) shape(x->getModifiedSubModel(s), sv[s], "a submodel");
         each(fv, [&](const Labels& l) { std::vector<Labels> sl(k); for(size_t i = 0; i < fv.size(); ++i) sl[c[fv[i]]].push_back(l[i]); Labels o(choose(2) ? 0 : choose(9), 1); double v = m.neutral(); for(size_t s = 0; s < k; ++s) { sim::Lib q; v = op(v, x->getModifiedSubModel(s).evaluate(sl[s].begin())); } { sim::Lib q; x->modifiedSubStates2OriginalState(sl, o); } mapped(fv, l, o, v); }); sim::count("probe.submodels"); sim::nontrivial(); }
   }
   struct Arm { Hub& h; bool al; Arm(Hub& q, int kind) : h(q), al(kind == 2) { h.cur() = Hub::T(); if(kind == 1) h.cur().throwAt = long(choose(1u << choose(6))); if(al) sim::Alloc::failAt(long(choose(1u << choose(7)))); }
      bool off() { bool f = h.cur().fired || (al && sim::Alloc::fired()); if(al && sim::Alloc::fired()) sim::count("fault.alloc-fails"); h.cur().throwAt = -1; sim::Alloc::failAt(-1); return f; } ~Arm() { off(); } };
   // true if the call was aborted
   template<class F> bool call(F f, bool faults) { int k = faults ? int(choose(8)) : 0; if(k > 2) k = 0; bool ab = false; Arm a(hub, k); try { sim::Lib l; f(); } catch(UserFault&) { ab = true; } catch(std::bad_alloc&) { ab = true; }
      bool fired = a.off(); if(fired && !ab) bad("swallowed", "a failure inside the call was not reported"); if(!fired && ab) bad("phantom", "an exception without a fault"); if(ab) { sim::count("history.failed-operation"); last += " that failed"; } return ab; }
   void step() {
      uint64_t o = choose(12); size_t nv = m.L.size();
      if(o <= 2) { if(!nv) return; size_t v = choose(nv), l = choose(m.L[v]); go(fmt("fixVariable(%zu,%zu)", v, l)); { sim::Lib q; x->fixVariable(IT(v), LT(l)); } if(!locked) { fixed[v] = 1; label[v] = l; } else sim::count("history.ignored"); }
      else if(o == 3) { if(!nv) return; size_t v = choose(nv); go(fmt("freeVariable(%zu)", v)); { sim::Lib q; x->freeVariable(IT(v)); } if(!locked) fixed[v] = 0; else sim::count("history.ignored"); }
      else if(o == 4) { if(choose(2)) return; go("freeAllVariables"); { sim::Lib q; x->freeAllVariables(); } if(!locked) fixed.assign(nv, 0); else sim::count("history.ignored"); }
      else if(o == 5) { go("lock"); bool ab = call([&] { x->lock(); }, true); if(ab) locked = x->isLocked(); else locked = true; }
      else if(o == 6) { if(locked && choose(3)) return; go("unlock"); { sim::Lib q; x->unlock(); } locked = built = subs = broken = false; tent = 0; fixed.assign(nv, 0); }
      else if(o == 7 || o == 8) { if(broken) return; go("buildModifiedModel"); bool ab = call([&] { x->buildModifiedModel(); }, true); if(ab) { built = false; locked = x->isLocked(); sim::count("history.failed-build"); } else built = locked = true; }
      else if(o == 9) { if(broken) return; go("buildModifiedSubModels"); bool ab = call([&] { x->buildModifiedSubModels(); }, true); if(ab) { subs = false; locked = x->isLocked(); sim::count("history.failed-build"); } else subs = locked = true; }
      else if(o == 10) { bool mi = choose(2); go(mi ? "lockAndTentacelElimination<Minimizer>()" : "lockAndTentacelElimination<Maximizer>()"); bool rejected = false;
         bool ab = call([&] { try { if(mi) x->template lockAndTentacelElimination<opengm::Minimizer>(); else x->template lockAndTentacelElimination<opengm::Maximizer>(); } catch(std::runtime_error&) { rejected = true; } }, !drop);
         if(rejected) { if(!drop || locked) bad("rejected", "the call was rejected"); sim::count("fault.invalid-arguments"); } else if(ab) { locked = x->isLocked(); if(locked) { broken = true; tent = mi ? 1 : 2; } } else if(!locked) { if(drop) bad("accepted", "tentacles were eliminated in a mode that does not support it"); locked = true; tent = mi ? 1 : 2; sim::count("probe.tentacles"); } else sim::count("history.ignored"); }
      else if(choose(2)) { go("copy"); X* c = 0; bool ab = call([&] { c = new X(*x); }, true); if(!ab) { sim::Lib q; delete x; x = c; } }
      check();
   }
};
template<class GM> void drive(const ref::Model& m, const GM& gm, Hub& hub) {
   Man<GM> a(m, gm, hub, choose(5) == 4); a.check(); std::unique_ptr<Man<GM> > b; if(choose(4) == 3) b.reset(new Man<GM>(m, gm, hub, choose(2)));
   for(uint64_t k = 2 + choose(14); k > 0; --k) if(b.get() && choose(2)) b->step(); else a.step();
   a.go("unlock"); { sim::Lib q; a.x->unlock(); } a.locked = a.built = a.subs = a.broken = false; a.tent = 0; a.fixed.assign(m.L.size(), 0); a.go("buildModifiedModel"); a.call([&] { a.x->buildModifiedModel(); }, false); a.built = a.locked = true; a.check(); if(b.get()) b->check(); sim::where("");
}
void run() {
   ref::GenOpt o; o.minVars = 1; o.maxVars = 7; o.maxLabels = 3; o.maxOrder = 1 + choose(4); o.maxFactors = choose(2) ? 6 : 12; o.maxStates = 400; o.order0 = true; o.mul = choose(2); o.positive = o.mul; o.acyclic = choose(3) == 2; o.duplicates = choose(4) == 3; ref::Model m; Models* gm; Hub hub; Quiet q;
   { sim::Harness h; m = ref::gen(o); gm = buildModels(m, true); }
   static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; sim::Alloc::junk(junk[choose(4)]); sim::sample("manipulator %s", m.str().c_str());
   try { if(m.mul) drive<GMM>(m, gm->m, hub); else drive<GMA>(m, gm->a, hub); } catch(std::exception& e) { sim::violation("throws", "threw %s", e.what()); }
   std::string e = compareModels(gm, m); if(!e.empty()) sim::violation("model", "the original model changed: %s", e.c_str());
   sim::interleaving(sim::traceHash());
}
sim::Register reg("P08", run);
}
