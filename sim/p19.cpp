// P19: message passing on forests reaches the exact marginals under every schedule.
#include "p19.hpp"
#include "faults.hpp"
using namespace slv;
namespace {
struct Comp { std::vector<size_t> c; Comp(const ref::Model& m) : c(m.L.size()) {
   for(size_t i = 0; i < c.size(); ++i) c[i] = i;
   for(bool ch = true; ch;) { ch = false; for(size_t f = 0; f < m.F.size(); ++f) for(size_t k = 1; k < m.F[f].v.size(); ++k) { size_t a = c[m.F[f].v[0]], b = c[m.F[f].v[k]]; if(a != b) { for(size_t i = 0; i < c.size(); ++i) if(c[i] == b) c[i] = a; ch = true; } } }
} };
// exact marginal over the variables v (of one component), first variable fastest; unnormalised, of the component only
std::vector<double> exact(const Scenario& c, const Comp& cc, const std::vector<size_t>& v) {
   const ref::Model& m = c.m; bool sum = c.s->flags & p19::Sum; size_t n = 1; for(size_t i = 0; i < v.size(); ++i) n *= m.L[v[i]];
   std::vector<double> r(n, sum ? 0.0 : c.minimise() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity());
   ref::Lab x(m.L.size(), 0);
   do {
      bool skip = false; for(size_t i = 0; i < x.size(); ++i) if(cc.c[i] != cc.c[v[0]] && x[i]) skip = true; if(skip) continue;
      double e = m.mul ? 1 : 0;
      for(size_t f = 0; f < m.F.size(); ++f) { const std::vector<size_t>& w = m.F[f].v; if(w.empty() || cc.c[w[0]] != cc.c[v[0]]) continue; ref::Lab l; for(size_t k = 0; k < w.size(); ++k) l.push_back(x[w[k]]); double t = m.fn[m.F[f].fn].at(l); if(m.mul) e *= t; else e += t; }
      size_t o = 0, s = 1; for(size_t i = 0; i < v.size(); ++i) { o += x[v[i]] * s; s *= m.L[v[i]]; }
      if(sum) r[o] += e; else if(better(c.minimise(), e, r[o])) r[o] = e;
   } while(ref::next(x, m.L));
   return r;
}
double agg(const Scenario& c, const std::vector<double>& a) { double r = a[0]; for(size_t i = 1; i < a.size(); ++i) if(c.s->flags & p19::Sum) r += a[i]; else if(better(c.minimise(), a[i], r)) r = a[i]; return r; }
std::string cmp(const Scenario& c, const std::vector<double>& got, std::vector<double> want) {
   if(got.size() != want.size()) return sim::fmt("has %zu entries instead of %zu", got.size(), want.size());
   for(size_t i = 0; i < got.size(); ++i) sim::hashNum(got[i]);
   bool norm = c.p.k[3]; double tol = 1e-6;
   double g = agg(c, got), w = agg(c, want), scale = 1;
   for(size_t i = 0; i < want.size(); ++i) scale = std::max(scale, std::fabs(want[i]));
   for(size_t i = 0; i < got.size(); ++i) if(!(std::fabs(got[i]) <= 1e300)) return sim::fmt("entry %zu is %g", i, got[i]);
   if(c.m.mul) { // proportional; scale fixed by the normalisation, or exact without
      if(w <= 0) return g == 0 ? "" : sim::fmt("total is %.12g instead of 0", g);
      if(!(g > 0)) return sim::fmt("total is %.12g", g);
      for(size_t i = 0; i < got.size(); ++i) if(std::fabs(got[i] / g - want[i] / w) > tol) return sim::fmt("entry %zu is %.12g of the total instead of %.12g", i, got[i] / g, want[i] / w);
      if(norm && std::fabs(g - 1) > tol && g > 1.0001e-5) return sim::fmt("is normalised to %.12g", g);
      if(!norm && std::fabs(g - w) > tol * w) return sim::fmt("has total %.12g instead of %.12g", g, w);
   } else {
      for(size_t i = 0; i < got.size(); ++i) if(std::fabs((got[i] - g) - (want[i] - w)) > tol * scale) return sim::fmt("entry %zu is %.12g from the best instead of %.12g", i, got[i] - g, want[i] - w);
      if(norm && std::fabs(g) > tol * scale) return sim::fmt("is normalised to %.12g", g);
      if(!norm && std::fabs(g - w) > tol * scale) return sim::fmt("has best value %.12g instead of %.12g", g, w);
   }
   return "";
}
// probe: only some of the marginals (at a callback)
void judge(const Scenario& c, Box& b, const char* when, bool probe) {
   sim::Harness h; EvalHook* eh = evalHook; evalHook = 0; std::string n = c.s->name; Comp cc(c.m); const char* sch = c.p.k[4] ? "tree" : c.p.k[2] ? "sequential" : "parallel";
   for(size_t i = 0; i < c.m.L.size(); ++i) { if(probe && sim::choose(3)) continue; std::vector<double> g; int r = b.marginal(i, g); if(r != 1) sim::violation(n + ":status", "%s: marginal(%zu) returned status %d", when, i, r);
      std::string e = cmp(c, g, exact(c, cc, std::vector<size_t>(1, i))); if(!e.empty()) sim::violation(n + ":marginal-" + sch, "%s: marginal of variable %zu %s", when, i, e.c_str()); sim::count("probe.marginal"); }
   for(size_t f = 0; f < c.m.F.size(); ++f) { if(c.m.F[f].v.empty() || (probe && sim::choose(3))) continue; std::vector<double> g; int r = b.factorMarginal(f, g); if(r != 1) sim::violation(n + ":status", "%s: factorMarginal(%zu) returned status %d", when, f, r);
      std::string e = cmp(c, g, exact(c, cc, c.m.F[f].v)); if(!e.empty()) sim::violation(n + ":factor-marginal-" + sch, "%s: marginal of factor %zu %s", when, f, e.c_str()); sim::count("probe.factor-marginal"); }
   if(!(c.s->flags & p19::Sum) && !(c.p.k[1] && c.p.k[4] == 0)) {
      ref::Lab x; int t = b.arg(x); if(t != 1 || x.size() != c.m.L.size()) sim::violation(n + ":arg", "%s: arg() returned status %d and %zu labels", when, t, x.size());
      for(size_t i = 0; i < x.size(); ++i) if(x[i] >= c.m.L[i]) sim::violation(n + ":range", "%s: label %zu of variable %zu out of range", when, x[i], i);
      double e = c.m.eval(x), best = c.m.best(c.minimise()); if(!close(e, best)) sim::violation(n + ":suboptimal-" + sch, "%s: the labelling has value %.12g, the optimum is %.12g", when, e, best);
      sim::count("probe.labelling");
   }
   evalHook = eh; sim::nontrivial();
}
struct S19 : Sink {
   const Scenario& c; long steps, stopAt, throwAt; bool exactFromStart, judging;
   S19(const Scenario& q) : c(q), steps(0), stopAt(-1), throwAt(-1), exactFromStart(false), judging(true) {}
   size_t on(int e, Box& b) {
      sim::Harness h; if(e != Step) return 0; ++steps; if(steps > 5000) sim::violation(std::string("hang:") + c.s->name, "more than 5000 rounds");
      bool enough = c.p.k[4] == 0 && (exactFromStart || steps >= long(c.p.k[7])); // the tree schedule is exact when it returns
      if(judging && enough && sim::coin(1, 6)) judge(c, b, exactFromStart ? "in a further run" : "after enough rounds", true);
      if(steps - 1 == throwAt) throw UserFault{ 2 };
      if(stopAt >= 0 && steps > stopAt) { sim::count("fault.stop-request"); return 1; }
      return 0;
   }
};
void run() {
   Scenario c = draw(0, true); Hub hub; Quiet q; static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; sim::Alloc::junk(junk[sim::choose(4)]);
   sim::where(c.s->name);
   try {
      std::unique_ptr<Box> b(make(c)); bool dirty = false, exact = false;
      for(uint64_t k = sim::choose(4); k > 0; --k) { // history: stopped, failing and complete runs
         S19 s(c); s.exactFromStart = exact && c.p.k[4] == 0; uint64_t w = sim::choose(4); sim::Lib l; long full = c.p.k[4] ? 6 : long(c.p.k[7]);
         try {
            if(w == 0) { s.stopAt = long(sim::choose(full)); b->infer(s); sim::ev("stopped after %ld", s.steps); exact = c.p.k[4] == 0 && exact; sim::count("history.stopped"); }
            else if(w == 1) { hub.cur().n = 0; hub.cur().throwAt = long(sim::choose(200)); b->infer(s); hub.cur().throwAt = -1; exact = true; }
            else if(w == 2) { s.throwAt = long(sim::choose(full)); b->infer(s); exact = true; }
            else { b->infer(s); exact = true; sim::count("history.complete"); }
            if(exact) judge(c, *b, "after a run", true);
         } catch(UserFault&) { hub.cur().throwAt = -1; sim::count("history.aborted"); b->reset(); dirty = true; exact = false; sim::ev("aborted, reset"); }
         if(!dirty && sim::coin(1, 4)) { b->reset(); exact = false; sim::count("history.reset"); sim::ev("reset"); }
         dirty = false;
      }
      hub.cur().throwAt = -1;
      S19 s(c); s.exactFromStart = exact && c.p.k[4] == 0;
      if(c.p.k[4] == 0 && sim::choose(2)) s.stopAt = long(c.p.k[7]) - 1 + long(sim::choose(3)); // stop as soon as it must be exact
      { sim::Lib l; if(sim::choose(4)) b->infer(s); else { b->inferPlain(); s.stopAt = -1; } }
      sim::ev("final run: %ld rounds", s.steps); judge(c, *b, s.stopAt >= 0 ? "stopped after enough rounds" : "after the final run", false);
      sim::interleaving(sim::traceHash());
      std::string e = compareModels(c.gm, c.m); if(!e.empty()) sim::violation(std::string(c.s->name) + ":model", "the model changed: %s", e.c_str());
   } catch(std::exception& e) { sim::violation(std::string(c.s->name) + ":throws", "threw on a forest: %s", e.what()); }
}
sim::Register reg("P19", run);
}
