// Drawing optimizer scenarios.
#pragma once
#include "solvers.hpp"
namespace slv {
struct Scenario {
   const Solver* s; ref::Model m; Par p; Models* gm;
   Scenario() : s(0), gm(0) {}
   std::string str() const { return std::string(s->name) + " {" + p.desc + "} " + m.str(); }
   bool minimise() const { return s->minimise; }
};
inline const Solver* drawSolver(unsigned flags, unsigned without = 0) {
   static bool sorted = false; if(!sorted) { sortAll(); sorted = true; }
   std::vector<const Solver*> v; for(size_t i = 0; i < all().size(); ++i) if((all()[i].flags & flags) == flags && !(all()[i].flags & without)) v.push_back(&all()[i]);
   // families first, so that several instantiations of one optimizer do not crowd out the others
   std::vector<std::string> fam; for(size_t i = 0; i < v.size(); ++i) if(std::find(fam.begin(), fam.end(), v[i]->family) == fam.end()) fam.push_back(v[i]->family);
   std::string f = fam[sim::choose(fam.size())]; std::vector<const Solver*> w; for(size_t i = 0; i < v.size(); ++i) if(f == v[i]->family) w.push_back(v[i]);
   return w[sim::choose(w.size())];
}
inline ref::Model drawModel(const Solver* s) { ref::GenOpt o; o.mul = s->mul; s->gen(o); o.allKinds = false; ref::Model m = ref::gen(o);
   if(!s->mul && o.energy == ref::General) for(size_t i = 0; i < m.fn.size(); ++i) { ref::Function& f = m.fn[i]; if(f.shape.size() != 2) continue; size_t k = sim::choose(5);
      if(k == 3) { f.kind = ref::Potts; f.p.clear(); f.p.push_back(ref::val(o)); f.p.push_back(ref::val(o)); ref::fillFromFormula(f); }
      if(k == 4) { f.kind = ref::TruncAbs; f.p.clear(); f.p.push_back(double(1 + sim::choose(3))); f.p.push_back(ref::val(o)); ref::fillFromFormula(f); } }
   return m; }
inline Scenario draw(unsigned flags, bool hook, unsigned without = 0) {
   sim::Harness h; Scenario c; c.s = drawSolver(flags, without); c.m = drawModel(c.s); c.s->draw(c.m, c.p); sim::randReset(unsigned(sim::choose(1000)));
   sim::sample("%s", c.str().c_str()); c.gm = buildModels(c.m, hook); sim::count((std::string("solver.") + c.s->name).c_str());
   return c;
}
// Whether an optimizer accepts the model (judged by what its generator would produce).
inline bool isForest(const ref::Model& m) {
   std::vector<size_t> p(m.L.size()); for(size_t i = 0; i < p.size(); ++i) p[i] = i;
   struct F { static size_t root(std::vector<size_t>& p, size_t i) { while(p[i] != i) i = p[i]; return i; } };
   for(size_t f = 0; f < m.F.size(); ++f) for(size_t k = 1; k < m.F[f].v.size(); ++k) { size_t a = F::root(p, m.F[f].v[0]), b = F::root(p, m.F[f].v[k]); if(a == b) return false; p[a] = b; }
   return true;
}
inline bool accepts(const Solver* s, const ref::Model& m) {
   ref::GenOpt o; o.mul = s->mul; s->gen(o);
   if(o.mul != m.mul || m.states() > o.maxStates || m.maxOrder() > o.maxOrder || m.L.size() < o.minVars || m.L.size() > o.maxVars) return false;
   if(o.acyclic && !isForest(m)) return false;
   if(o.uniformLabels) for(size_t i = 1; i < m.L.size(); ++i) if(m.L[i] != m.L[0]) return false;
   for(size_t i = 0; i < m.L.size(); ++i) if(m.L[i] < o.minLabels || m.L[i] > o.maxLabels) return false;
   std::vector<bool> un(m.L.size(), false);
   std::vector<size_t> p(m.L.size()); for(size_t i = 0; i < p.size(); ++i) p[i] = i; size_t comp = p.size();
   for(size_t f = 0; f < m.F.size(); ++f) {
      const std::vector<size_t>& v = m.F[f].v; const ref::Function& q = m.fn[m.F[f].fn];
      if(v.empty() && !o.order0) return false; if(v.size() == 1) un[v[0]] = true;
      for(size_t k = 1; k < v.size(); ++k) { size_t a = v[0], b = v[k]; while(p[a] != a) a = p[a]; while(p[b] != b) b = p[b]; if(a != b) { p[a] = b; --comp; } }
      if(!o.duplicates) for(size_t g = 0; g < f; ++g) if(m.F[g].v == v) return false;
      if(o.positive) for(size_t k = 0; k < q.t.size(); ++k) if(q.t[k] < 0) return false;
      if(v.size() >= 2 && (o.energy == ref::Submodular || o.energy == ref::Supermodular) && !ref::submodular(q, o.energy == ref::Supermodular)) return false;
      if(v.size() == 1 && o.noUnaries) return false;
      if(v.size() == 2 && o.energy == ref::AnyPotts) { for(size_t a = 0; a < q.shape[0]; ++a) for(size_t b = 0; b < q.shape[1]; ++b) if(q.t[a + q.shape[0] * b] != q.t[a == b ? 0 : 1]) return false; }
      if(v.size() == 2 && o.energy == ref::Metric) { size_t n = q.shape[0]; for(size_t a = 0; a < n; ++a) { if(q.t[a + n * a] != 0) return false; for(size_t b = 0; b < n; ++b) { if(q.t[a + n * b] < 0 || q.t[a + n * b] != q.t[b + n * a]) return false; for(size_t d = 0; d < n; ++d) if(q.t[a + n * b] > q.t[a + n * d] + q.t[d + n * b] + 1e-12) return false; } } }
   }
   if(o.unaries) for(size_t i = 0; i < un.size(); ++i) if(!un[i]) return false;
   if(o.connected && comp > 1) return false;
   return true;
}
// Another optimizer for the model of an existing scenario (which keeps owning the model).
inline Scenario drawOther(const Scenario& c, unsigned flags = 0, unsigned without = 0) {
   sim::Harness h; Scenario r; r.m = c.m; r.gm = c.gm;
   std::vector<const Solver*> v; for(size_t i = 0; i < all().size(); ++i) if((all()[i].flags & flags) == flags && !(all()[i].flags & without) && all()[i].mul == c.m.mul && (&all()[i] == c.s || accepts(&all()[i], c.m))) v.push_back(&all()[i]);
   if(v.empty()) v.push_back(c.s);
   r.s = v[sim::choose(v.size())]; r.s->draw(r.m, r.p); sim::count((std::string("solver.") + r.s->name).c_str()); return r;
}
inline Box* make(const Scenario& c) { sim::Lib l; return c.s->make(c.gm, c.p); }
// Reads (arg, value) and checks them against the reference model. Returns an empty string, or what is wrong.
inline std::string checkState(const Scenario& c, Box& b, bool mustHave, double tol = 1e-6) {
   sim::Harness h; EvalHook* eh = evalHook; evalHook = 0; std::string r;
   ref::Lab x; int t = b.arg(x); double v = b.value();
   sim::hashNum(v); for(size_t i = 0; i < x.size(); ++i) sim::hashInt(x[i]);
   if(t == 1 || t == 3) { // NORMAL or CONVERGENCE: claims a labelling
      if(x.size() != c.m.L.size()) r = sim::fmt("arg() returned %zu labels for %zu variables", x.size(), c.m.L.size());
      else { for(size_t i = 0; i < x.size() && r.empty(); ++i) if(x[i] >= c.m.L[i]) r = sim::fmt("arg() returned label %zu for variable %zu with %zu labels", x[i], i, c.m.L[i]);
         if(r.empty()) { double e = c.m.eval(x); if(!close(v, e, tol) && !(!mustHave && isWorst(c.minimise(), v))) r = sim::fmt("value() = %.12g but the reported labelling has value %.12g", v, e); } }
   }
   else if(mustHave) r = sim::fmt("arg() returned status %d after inference", t);
   else if(!isWorst(c.minimise(), v)) r = sim::fmt("arg() returned status %d but value() = %.12g", t, v);
   evalHook = eh; return r;
}
} // namespace slv
