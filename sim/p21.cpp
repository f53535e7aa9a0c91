// P21: move bookkeeping matches full evaluation through any history, including failing evaluations and allocations.
#include "solver_impl.hpp"
#include "slvrun.hpp"
#include "faults.hpp"
#include <opengm/inference/movemaker.hxx>
#include <opengm/inference/bruteforce.hxx>
#include <opengm/inference/icm.hxx>
using namespace slv;
namespace {
typedef std::vector<size_t> Vars;
template<class GM> struct Mover {
   typedef opengm::Movemaker<GM> MM; typedef typename GM::LabelType LT;
   const ref::Model& m; const GM& gm; Hub& hub; MM mm; ref::Lab x; std::string n, last;
   Mover(const ref::Model& q, const GM& g, Hub& h) : m(q), gm(g), hub(h), mm(g), x(q.L.size(), 0), n(q.mul ? "mul" : "add") {}
   Mover(const ref::Model& q, const GM& g, Hub& h, const ref::Lab& s) : m(q), gm(g), hub(h), mm(g, s.begin()), x(s), n(q.mul ? "mul" : "add") {}
   void bad(const char* what, const std::string& msg) { sim::violation(n + ":" + what, "after %s: %s", last.c_str(), msg.c_str()); }
   ref::Lab read() { ref::Lab y(x.size()); for(size_t i = 0; i < y.size(); ++i) { y[i] = mm.state(i); if(y[i] >= m.L[i]) bad("range", sim::fmt("variable %zu has label %zu", i, y[i])); }
      size_t i = 0; for(typename MM::LabelIterator it = mm.stateBegin(); it != mm.stateEnd(); ++it, ++i) if(i >= y.size() || *it != y[i]) bad("iterate", "stateBegin/stateEnd disagree with state()"); if(i != y.size()) bad("iterate", "stateEnd is misplaced"); return y; }
   void same() { ref::Lab y = read(); for(size_t i = 0; i < y.size(); ++i) if(y[i] != x[i]) bad("state", sim::fmt("variable %zu has label %zu instead of %zu", i, y[i], x[i])); value(); }
   void value() { if(!close(mm.value(), m.eval(x))) bad("value", sim::fmt("value() is %.12g, but the state has value %.12g", double(mm.value()), m.eval(x))); sim::hashNum(mm.value()); for(size_t i = 0; i < x.size(); ++i) sim::hashInt(x[i]); }
   Vars subset(bool sorted, bool empty) { Vars a(x.size()), r; for(size_t i = 0; i < a.size(); ++i) a[i] = i; size_t k = empty ? sim::choose(std::min<size_t>(a.size(), 4) + 1) : 1 + sim::choose(std::min<size_t>(a.size(), 4));
      for(size_t i = 0; i < k; ++i) { size_t c = sim::choose(a.size()); r.push_back(a[c]); a.erase(a.begin() + c); } if(sorted) std::sort(r.begin(), r.end()); return r; }
   // best value over joint relabellings of the subset; `all`: every variable changes its label
   double best(const Vars& v, bool mi, bool all) { double b = m.eval(x); ref::Lab l(v.size(), 0); Vars sh; for(size_t i = 0; i < v.size(); ++i) sh.push_back(m.L[v[i]]); if(v.empty()) return b;
      do { ref::Lab y(x); bool ok = true; for(size_t i = 0; i < v.size(); ++i) { if(l[i] == x[v[i]]) ok = false; y[v[i]] = l[i]; } if(all && !ok) continue; double e = m.eval(y); if(mi ? e < b : e > b) b = e; } while(ref::next(l, sh)); return b; }
   std::string show(const Vars& v) { std::string s = "("; for(size_t i = 0; i < v.size(); ++i) s += sim::fmt(i ? ",%zu" : "%zu", v[i]); return s + ")"; }
   struct Arm { Hub& h; bool ev, al; Arm(Hub& q, int kind) : h(q), ev(kind == 1), al(kind == 2) { h.cur() = Hub::T(); if(ev) h.cur().throwAt = long(sim::choose(1u << sim::choose(7))); if(al) sim::Alloc::failAt(long(sim::choose(1u << sim::choose(6)))); }
      bool off() { bool f = h.cur().fired || (al && sim::Alloc::fired()); if(al && sim::Alloc::fired()) sim::count("fault.alloc-fails"); h.cur().throwAt = -1; sim::Alloc::failAt(-1); return f; } ~Arm() { off(); } };
   template<class A> void optimally(const Vars& v, bool all, bool mi, int fault) {
      double want = best(v, mi, all), before = m.eval(x), r = 0; bool aborted = false; Arm a(hub, fault);
      try { sim::Lib l; r = all ? mm.template moveOptimallyWithAllLabelsChanging<A>(v.begin(), v.end()) : mm.template moveOptimally<A>(v.begin(), v.end()); }
      catch(UserFault&) { aborted = true; } catch(std::bad_alloc&) { aborted = true; }
      bool f = a.off(); if(!f && aborted) bad("phantom", "an exception without a fault"); if(f && !aborted) bad("swallowed", "the exception of the failing evaluation did not arrive");
      ref::Lab y = read(); for(size_t i = 0; i < y.size(); ++i) if(y[i] != x[i] && std::find(v.begin(), v.end(), i) == v.end()) bad("foreign", sim::fmt("variable %zu changed although it was not among the given variables", i));
      ref::Lab old(x); x = y; value(); double now = m.eval(x); if(aborted) { if(mi ? now > before && !close(now, before) : now < before && !close(now, before)) bad("worse", "the state got worse"); sim::count("history.aborted"); return; }
      if(!close(r, now)) bad("returned", sim::fmt("returned %.12g, but the new state has value %.12g", r, now));
      if(!close(now, want)) bad("optimal", sim::fmt("value %.12g instead of the best joint relabelling's %.12g", now, want));
      if(all && x != old) for(size_t i = 0; i < v.size(); ++i) if(x[v[i]] == old[v[i]]) bad("all-change", sim::fmt("variable %zu kept its label", v[i]));
      sim::count("probe.optimal"); sim::nontrivial();
   }
   template<class INF> void propose(bool exact, bool mi, int fault) {
      Vars v = subset(true, false); last = "proposeMoveAccordingToInference" + show(v); double want = best(v, mi, false); std::vector<LT> s(sim::choose(3)); bool aborted = false; Arm a(hub, fault);
      try { sim::Lib l; typename INF::Parameter p; mm.template proposeMoveAccordingToInference<INF, typename INF::Parameter, Vars::const_iterator, typename std::vector<LT>::iterator>(p, v.begin(), v.end(), s); }
      catch(UserFault&) { aborted = true; } catch(std::bad_alloc&) { aborted = true; }
      bool f = a.off(); if(!f && aborted) bad("phantom", "an exception without a fault"); if(f && !aborted && fault == 1) bad("swallowed", "the exception of the failing evaluation did not arrive"); same(); if(aborted) { sim::count("history.aborted"); return; }
      if(s.size() != v.size()) bad("propose-size", sim::fmt("%zu labels for %zu variables", s.size(), v.size())); ref::Lab y(x); for(size_t i = 0; i < v.size(); ++i) { if(s[i] >= m.L[v[i]]) bad("propose-range", sim::fmt("label %zu for variable %zu", size_t(s[i]), v[i])); y[v[i]] = s[i]; }
      if(exact && !close(m.eval(y), want)) bad("propose", sim::fmt("exact inference on the neighbourhood proposes value %.12g, the best is %.12g", m.eval(y), want));
      sim::count("probe.propose"); sim::nontrivial();
      if(sim::choose(2)) { { sim::Lib l; mm.move(v.begin(), v.end(), s.begin()); } x = y; last += " and move"; same(); }
   }
   void go(const std::string& w) { last = w; sim::where((n + ":" + w).c_str()); sim::ev("%s", w.c_str()); }
   void step() {
      uint64_t op = sim::choose(8); int fault = int(sim::choose(6)); if(fault > 2) fault = 0;
      if(op == 0 || op == 1) {
         Vars v = subset(false, true); std::vector<LT> d; ref::Lab y(x); for(size_t i = 0; i < v.size(); ++i) { d.push_back(LT(sim::choose(m.L[v[i]]))); y[v[i]] = d.back(); }
         go((op ? "move" : "valueAfterMove") + show(v)); double r = 0; bool aborted = false; Arm a(hub, fault);
         try { sim::Lib l; r = op ? mm.move(v.begin(), v.end(), d.begin()) : mm.valueAfterMove(v.begin(), v.end(), d.begin()); } catch(UserFault&) { aborted = true; } catch(std::bad_alloc&) { aborted = true; }
         bool f = a.off(); if(f != aborted) bad(f ? "swallowed" : "phantom", "fault and exception do not match");
         if(aborted) { sim::count("history.aborted"); same(); return; }
         if(!close(r, m.eval(y))) bad("returned", sim::fmt("returned %.12g, but the destination has value %.12g", r, m.eval(y)));
         if(op) x = y; same(); sim::count(op ? "probe.move" : "probe.tentative"); sim::nontrivial();
      }
      else if(op == 2 || op == 3) { bool mi = !m.mul && sim::choose(2) == 0; Vars v = subset(false, true); go(std::string(op == 2 ? "moveOptimally" : "moveOptimallyWithAllLabelsChanging") + (mi ? "<min>" : "<max>") + show(v)); if(mi) optimally<opengm::Minimizer>(v, op == 3, true, fault); else optimally<opengm::Maximizer>(v, op == 3, false, fault); }
      else if(op == 4) { typedef typename MM::SubGmType S; go("propose"); bool mi = !m.mul && sim::choose(2) == 0;
         if(sim::choose(4) == 3) { if(mi) propose<opengm::ICM<S, opengm::Minimizer> >(false, true, fault); else propose<opengm::ICM<S, opengm::Maximizer> >(false, false, fault); }
         else if(mi) propose<opengm::Bruteforce<S, opengm::Minimizer> >(true, true, fault); else propose<opengm::Bruteforce<S, opengm::Maximizer> >(true, false, fault); }
      else if(op == 5) { ref::Lab y(x.size()); for(size_t i = 0; i < y.size(); ++i) y[i] = sim::choose(m.L[i]); std::vector<LT> z(y.begin(), y.end()); go("initialize"); again(y, fault, [&] { mm.initialize(z.begin()); }); }
      else if(op == 6) { go("reset"); again(ref::Lab(x.size(), 0), fault, [&] { mm.reset(); }); }
      else { go("read"); same(); }
   }
   template<class F> void again(const ref::Lab& y, int fault, F f) { bool aborted = false; Arm a(hub, fault); try { sim::Lib l; f(); } catch(UserFault&) { aborted = true; } catch(std::bad_alloc&) { aborted = true; }
      if(a.off() != aborted) bad("swallowed", "fault and exception do not match"); if(aborted) sim::count("history.aborted"); else x = y; same(); }
};
template<class GM> void drive(const ref::Model& m, const GM& gm, Hub& hub) {
   typedef Mover<GM> M; ref::Lab s(m.L.size()); for(size_t i = 0; i < s.size(); ++i) s[i] = sim::choose(m.L[i]);
   std::unique_ptr<M> p(sim::choose(2) ? new M(m, gm, hub, s) : new M(m, gm, hub)); p->last = "construction"; p->same();
   for(uint64_t k = 1 + sim::choose(24); k > 0; --k) p->step();
   sim::where(""); std::string e;
}
void run() {
   ref::GenOpt o; anyModel(o); o.order0 = true; o.mul = sim::choose(2); o.positive = o.mul; o.allKinds = false; o.maxFactors = 14; ref::Model m; Models* gm; Hub hub; Quiet q;
   { sim::Harness h; m = ref::gen(o); if(o.mul && sim::choose(2)) for(size_t f = 0; f < m.fn.size(); ++f) for(size_t k = 0; k < m.fn[f].t.size(); ++k) if(sim::choose(4) == 0) m.fn[f].t[k] = 0; gm = buildModels(m, true); }
   static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; sim::Alloc::junk(junk[sim::choose(4)]); sim::sample("movemaker %s", m.str().c_str());
   try { if(m.mul) drive<GMM>(m, gm->m, hub); else drive<GMA>(m, gm->a, hub); } catch(std::exception& e) { sim::violation("throws", "threw %s", e.what()); }
   std::string e = compareModels(gm, m); if(!e.empty()) sim::violation("model", "the model changed: %s", e.c_str());
   sim::interleaving(sim::traceHash());
}
sim::Register reg("P21", run);
}
