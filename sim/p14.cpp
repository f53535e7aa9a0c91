// P14: exact optimizers return a global optimum, whatever else happens around them.
#include "faults.hpp"
#include <opengm/opengm.hxx>
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/simplediscretespace.hxx>
#include <opengm/operations/and.hxx>
#include <opengm/inference/sat.hxx>
using namespace slv;
namespace {
void judge(const Scenario& c, Box& b, const char* when) {
   sim::Harness h; EvalHook* eh = evalHook; evalHook = 0; std::string n = c.s->name;
   ref::Lab x; int t = b.arg(x); double v = b.value(), best = c.m.best(c.minimise());
   sim::hashNum(v); for(size_t i = 0; i < x.size(); ++i) sim::hashInt(x[i]);
   if(t != 1 && t != 3) sim::violation(n + ":status", "%s: arg() returned status %d after a complete run", when, t);
   if(x.size() != c.m.L.size()) sim::violation(n + ":size", "%s: %zu labels for %zu variables", when, x.size(), c.m.L.size());
   for(size_t i = 0; i < x.size(); ++i) if(x[i] >= c.m.L[i]) sim::violation(n + ":range", "%s: label %zu of variable %zu out of range", when, x[i], i);
   double e = c.m.eval(x); std::vector<bool> fix;
   if(b.partial(fix)) { // the labels marked as optimal are together part of an optimum
      if(fix.size() != x.size()) sim::violation(n + ":partial-size", "%s: optimality of %zu labels reported for %zu variables", when, fix.size(), x.size());
      double r = std::numeric_limits<double>::infinity(); ref::Lab l(c.m.L.size(), 0); size_t k = 0; std::string s;
      for(size_t i = 0; i < x.size(); ++i) if(fix[i]) { ++k; s += sim::fmt(" x%zu=%zu", i, x[i]); }
      do { bool in = true; for(size_t i = 0; i < l.size() && in; ++i) in = !fix[i] || l[i] == x[i]; if(in) r = std::min(r, c.m.eval(l)); } while(ref::next(l, c.m.L));
      if(!close(r, best)) sim::violation(n + ":partial", "%s: no optimum has the labels reported as optimal (%s ): best value with them %.12g, optimum %.12g", when, s.c_str(), r, best);
      sim::count("probe.partial-optimality"); if(k > 0 && k < x.size()) sim::count("probe.partial-optimality-some");
   }
   if(!(c.s->flags & Exact)) { evalHook = eh; sim::nontrivial(); return; }
   if(!close(e, best)) sim::violation(n + ":suboptimal", "%s: the reported labelling has value %.12g but the optimum is %.12g", when, e, best);
   if(!close(v, best)) sim::violation(n + ":value", "%s: value() is %.12g but the optimum is %.12g", when, v, best);
   if(std::string(c.s->family) == "AStar" && c.p.k[1] > 0) { // the n best labellings
      std::vector<double> all; ref::Lab l(c.m.L.size(), 0); do all.push_back(c.m.eval(l)); while(ref::next(l, c.m.L));
      std::sort(all.begin(), all.end()); if(!c.minimise()) std::reverse(all.begin(), all.end());
      std::vector<ref::Lab> seen;
      for(size_t k = 1; k <= std::min<size_t>(1 + c.p.k[1], all.size()); ++k) {
         ref::Lab y; int s = b.arg(y, k); if(s != 1 && s != 3) sim::violation(n + ":nth-status", "%s: no %zu-th best labelling (status %d), %zu labellings", when, k, s, all.size());
         if(y.size() != c.m.L.size() || !close(c.m.eval(y), all[k - 1])) sim::violation(n + ":nth-value", "%s: the %zu-th best labelling has value %.12g instead of %.12g", when, k, y.size() == c.m.L.size() ? c.m.eval(y) : 0, all[k - 1]);
         if(std::find(seen.begin(), seen.end(), y) != seen.end()) sim::violation(n + ":nth-twice", "%s: the %zu-th best labelling was already reported", when, k);
         seen.push_back(y); sim::count("probe.nth-best");
      }
   }
   evalHook = eh; sim::nontrivial();
}
// The 2-SAT solver decides satisfiability.
typedef opengm::GraphicalModel<bool, opengm::And, opengm::ExplicitFunction<bool>, opengm::SimpleDiscreteSpace<> > GMB;
void sat() {
   sim::Alloc::junk(0xA5); size_t n = 1 + sim::choose(6), m = n < 2 ? 0 : sim::choose(4 * n); GMB gm(opengm::SimpleDiscreteSpace<>(n, 2)); std::vector<std::vector<size_t> > v; std::vector<std::vector<bool> > t; std::string d;
   for(size_t i = 0; i < m; ++i) {
      size_t a = sim::choose(n), b = sim::choose(n - 1); if(b >= a) ++b; if(b < a) std::swap(a, b); std::vector<bool> q(4, true); size_t kill = 1 + sim::choose(2) * sim::choose(3); for(size_t k = 0; k < kill; ++k) q[sim::choose(4)] = false;
      size_t sh[] = { 2, 2 }, w[] = { a, b }; opengm::ExplicitFunction<bool> f(sh, sh + 2, true); for(size_t y = 0; y < 2; ++y) for(size_t x = 0; x < 2; ++x) f(x, y) = q[x + 2 * y];
      gm.addFactor(gm.addFunction(f), w, w + 2); v.push_back(std::vector<size_t>(w, w + 2)); t.push_back(q); d += sim::fmt(" (%zu,%zu)[%d%d%d%d]", a, b, int(q[0]), int(q[1]), int(q[2]), int(q[3]));
   }
   bool yes = false; for(size_t x = 0; x < (size_t(1) << n) && !yes; ++x) { bool ok = true; for(size_t i = 0; i < m && ok; ++i) ok = t[i][(x >> v[i][0] & 1) + 2 * (x >> v[i][1] & 1)]; yes = ok; }
   sim::sample("2-sat n=%zu%s", n, d.c_str()); sim::count("solver.sat"); sim::where("sat"); sim::count(yes ? "probe.satisfiable" : "probe.unsatisfiable");
   opengm::SAT<GMB> s(gm); size_t runs = 1 + sim::choose(3);
   for(size_t r = 0; r < runs; ++r) {
      if(sim::choose(3) == 2) { long n0 = long(sim::choose(40)); sim::Alloc::failAt(n0); try { sim::Lib l; s.infer(); } catch(std::bad_alloc&) { sim::count("fault.alloc-fails"); } sim::Alloc::failAt(-1); }
      { sim::Lib l; s.infer(); } bool got = s.value(); sim::hashInt(got);
      if(got != yes) sim::violation("sat:decision", "run %zu: reported %s, but the formula is %s", r, got ? "satisfiable" : "unsatisfiable", yes ? "satisfiable" : "unsatisfiable");
   }
   sim::nontrivial();
}
void run() {
   if(sim::choose(16) == 15) { sat(); return; }
   Scenario c = draw(sim::choose(12) == 11 ? Persistent : Exact, true); Hub hub; Quiet q;
   static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; sim::Alloc::junk(junk[sim::choose(4)]);
   sim::where(c.s->name);
   try {
      for(uint64_t k = sim::choose(3); k > 0; --k) { Scenario d = sim::choose(2) ? drawOther(c) : c; FSink s(d); s.record = false; sim::where((std::string("disturbance:") + d.s->name).c_str()); disturbed(d, hub, drawFault(), s); sim::count("history.disturbed"); }
      sim::where(c.s->name);
      if(sim::choose(2)) { std::unique_ptr<Box> b(make(c)); { FSink s(c); s.record = false; sim::Lib l; b->infer(s); } judge(c, *b, "alone");
         if((c.s->flags & Rerun) && sim::choose(2)) { { sim::Lib l; b->inferPlain(); } sim::count("history.rerun"); judge(c, *b, "second run"); } }
      else {
         size_t n = 1 + sim::choose(2); std::vector<Scenario> o; std::vector<Fault> f; for(size_t i = 0; i < n; ++i) { o.push_back(drawOther(c)); f.push_back(sim::choose(2) ? drawFault(FVisitor + 1) : Fault()); }
         std::vector<std::function<void()> > t; std::unique_ptr<Box> b;
         for(int i = 0; i < 9; ++i) hub.t[i].yield = true;
         t.push_back([&] { sim::yieldPoint(); b.reset(make(c)); FSink s(c); s.record = false; s.yield = true; { sim::Lib l; b->infer(s); } sim::yieldPoint(); });
         for(size_t i = 0; i < n; ++i) t.push_back([&, i] { sim::yieldPoint(); FSink s(o[i]); s.record = false; s.yield = true; disturbed(o[i], hub, f[i], s); });
         sim::count("history.interleaved"); sim::runTasks(t); sim::interleaving(sim::traceHash()); judge(c, *b, "interleaved with others");
      }
      std::string e = compareModels(c.gm, c.m); if(!e.empty()) sim::violation(std::string(c.s->name) + ":model", "the model changed: %s", e.c_str());
   } catch(std::exception& e) { sim::violation(std::string(c.s->name) + ":throws", "accepted model but threw: %s", e.what()); }
}
sim::Register reg("P14", run);
}
