// P13: time limits and timing logs follow the clock.
#include "rec.hpp"
#include <opengm/opengm.hxx>
#include <opengm/inference/visitors/visitors.hxx>
using namespace slv;
namespace {
// Simulated time passes only outside the timing visitor: while the optimizer evaluates and between steps.
int64_t slow() { switch(sim::choose(10)) { case 9: sim::count("fault.clock-jump"); return int64_t(1000000) * 3600000; case 8: sim::count("fault.stall"); return int64_t(1000000) * int64_t(1 + sim::choose(5000)); case 0: case 1: case 2: return 0; default: return int64_t(1000000) * int64_t(1 + sim::choose(4)); } }
bool inVisitor;
struct TickHook : EvalHook { long left; TickHook(long l) : left(l) { evalHook = this; } ~TickHook() { evalHook = 0; } void onEval() { if(!inVisitor && left > 0 && sim::choose(4) == 3) { --left; sim::advanceNs(slow()); } } };
struct Entry { bool evaluated; int ev; double v, b, t; size_t it, ret; };
struct Spec { size_t nth; double limit, gap; };
std::string spec(const Spec& s) { return sim::fmt("every %zu, limit %g s, gap %g", s.nth, s.limit, s.gap); }
// Checks a protocol against what happened.
void judge(const std::string& n, const Spec& s, const std::vector<Entry>& h, const std::vector<double>& T, const std::vector<double>& V, const std::vector<double>& B, const std::vector<double>& I) {
   if(V.size() != T.size() || B.size() != T.size() || I.size() != T.size()) sim::violation(n + ":lengths", "%s: protocol lengths differ: %zu times, %zu values, %zu bounds, %zu iterations", spec(s).c_str(), T.size(), V.size(), B.size(), I.size());
   size_t k = 0; bool stopped = false;
   for(size_t i = 0; i < h.size(); ++i) {
      const Entry& e = h[i];
      if(e.ev == Step) {
         bool gap = e.evaluated && std::fabs(e.b - e.v) <= s.gap, time = e.evaluated && e.t > s.limit;
         bool edge = e.evaluated && std::fabs(e.t - s.limit) < 1e-5 && !(s.limit == 0 && e.t == 0);
         size_t want = gap ? size_t(opengm::visitors::VisitorReturnFlag::StopInfBoundReached) : time ? size_t(opengm::visitors::VisitorReturnFlag::StopInfTimeout) : 0;
         if(!stopped && !edge) {
            if(!want && e.ret) sim::violation(n + ":stopped-early", "%s: the visitor asked to stop (%zu) at step %zu, time %.9g s, value %.12g, bound %.12g", spec(s).c_str(), e.ret, e.it, e.t, e.v, e.b);
            if(want && !e.ret) sim::violation(n + ":not-stopped", "%s: the visitor did not stop at step %zu, time %.9g s, value %.12g, bound %.12g", spec(s).c_str(), e.it, e.t, e.v, e.b);
            if(want != e.ret && !(gap && time)) sim::violation(n + ":wrong-reason", "%s: stop reason %zu instead of %zu at step %zu", spec(s).c_str(), e.ret, want, e.it);
         }
         if(e.ret) { if(!stopped) sim::count(gap ? "probe.gap-stop" : "probe.time-stop"); stopped = true; }
         if(!e.evaluated) continue;
      }
      if(e.ev == Step && stopped && !e.ret && k < T.size() && !Obs::bits(T[k], e.t)) continue;
      if(k >= T.size()) sim::violation(n + ":missing", "%s: the protocol has %zu entries; there is none for %s (step %zu)", spec(s).c_str(), T.size(), evName(e.ev), e.it);
      if(std::fabs(T[k] - e.t) > 1e-5) sim::violation(n + ":time", "%s: entry %zu (%s, step %zu) has time %.9g s but %.9g s have passed", spec(s).c_str(), k, evName(e.ev), e.it, T[k], e.t);
      if(k && T[k] < T[k - 1]) sim::violation(n + ":time-decreases", "%s: entry %zu has time %.17g after %.17g", spec(s).c_str(), k, T[k], T[k - 1]);
      if(!Obs::bits(V[k], e.v) || !Obs::bits(B[k], e.b)) sim::violation(n + ":value", "%s: entry %zu (%s, step %zu) records value %.17g bound %.17g but the optimizer reported %.17g, %.17g", spec(s).c_str(), k, evName(e.ev), e.it, V[k], B[k], e.v, e.b);
      if(e.ev != End && !stopped && I[k] != double(e.it)) sim::violation(n + ":iteration", "%s: entry %zu has iteration %g instead of %zu", spec(s).c_str(), k, I[k], e.it);
      ++k;
   }
   if(k != T.size()) sim::violation(n + ":surplus", "%s: the protocol has %zu entries, expected %zu", spec(s).c_str(), T.size(), k);
}
struct S13 : Sink {
   std::vector<Entry> h; Spec sp; int64_t t0; size_t it; bool stopped; const char* name;
   S13(const Spec& s, const char* n) : sp(s), t0(0), it(0), stopped(false), name(n) {}
   size_t on(int e, Box& b) {
      if(h.size() > 20000) sim::violation(std::string("hang:") + name, "more than 20000 visitor steps");
      if(e == Step) sim::advanceNs(slow());
      if(e == Begin) t0 = sim::nowNs();
      EvalHook* eh = evalHook; evalHook = 0; Entry x; x.ev = e; x.v = b.value(); x.b = b.bound(); evalHook = eh;
      x.t = double(sim::nowNs() - t0) * 1e-9; x.it = it; x.evaluated = e == Step && it % sp.nth == 0; x.ret = 0;
      h.push_back(x); inVisitor = true; sim::hashNum(x.v); sim::hashNum(x.t); if(!stopped) ++it;
      return 0;
   }
   void log(const char* n, double v) { if(!strcmp(n, "visitor-left")) inVisitor = false; if(!strcmp(n, "visitor-returned")) { inVisitor = false; h.back().ret = size_t(v); if(v != 0 && !stopped) { stopped = true; --it; } } }
};
Spec drawSpec() { Spec s; s.nth = 1 + sim::choose(4); s.gap = sim::choose(3) == 2 ? double(sim::choose(9)) : 0; uint64_t k = sim::choose(4); s.limit = k == 0 ? std::numeric_limits<double>::infinity() : k == 1 ? 0 : double(sim::choose(12)) * 1e-3 + 5e-4; if(sim::choose(8) == 7) s.limit = 3600; return s; }
void solver() {
   Scenario c = draw(0, true); sim::where(c.s->name); Quiet q; Spec s = drawSpec(); S13 k(s, c.s->name);
   TimingSpec t; t.nth = s.nth; t.timeLimit = s.limit; t.gapLimit = s.gap; t.verbose = sim::choose(2); TimingOut o;
   sim::clockActive = true; TickHook th(40); inVisitor = false;
   try {
      std::unique_ptr<Box> b(make(c)); inVisitor = true; /* between the visitor's construction and begin no time passes */ { sim::Lib l; b->inferTiming(t, o, k); } 
      sim::ev("%zu callbacks, %zu entries", k.h.size(), o.times.size());
      if(o.ctime.size() != 1) sim::violation(std::string(c.s->name) + ":ctime", "%zu construction times", o.ctime.size());
      judge(c.s->name, s, k.h, o.times, o.values, o.bounds, o.iterations); sim::nontrivial();
   } catch(std::exception& e) { sim::violation(std::string(c.s->name) + ":throws", "accepted model but threw: %s", e.what()); }
}
// The visitors driven by a scripted optimizer.
struct Script { typedef double ValueType; double v, b; double value() const { return v; } double bound() const { return b; } };
template<class V> struct Drive;
template<> struct Drive<opengm::visitors::TimingVisitor<Script> > { typedef opengm::visitors::TimingVisitor<Script> V; static const char* name() { return "TimingVisitor"; }
   static void begin(V& v, Script& s) { v.begin(s); } static size_t step(V& v, Script& s) { return v(s); } static void end(V& v, Script& s) { v.end(s); }
   static void log(V& v, int what, double x) { if(what == 1) v.addLog("extra"); else v.log("extra", x); } };
template<> struct Drive<opengm::visitors::ExplicitTimingVisitor<Script> > { typedef opengm::visitors::ExplicitTimingVisitor<Script> V; static const char* name() { return "ExplicitTimingVisitor"; }
   static void begin(V& v, Script& s) { v.begin(s, s.v, s.b); } static size_t step(V& v, Script& s) { return v(s, s.v, s.b); } static void end(V& v, Script& s) { v.end(s, s.v, s.b); }
   static void log(V&, int, double) {} };
template<class V> void script() {
   typedef Drive<V> D; sim::where(D::name()); Quiet q; Spec s = drawSpec(); sim::clockActive = true; size_t mem = sim::choose(8) == 7 ? 1 + sim::choose(2) : 0;
   sim::sample("%s %s memory logging %zu", D::name(), spec(s).c_str(), mem); sim::count("probe.scripted");
   std::vector<Entry> h; Script i; i.v = double(sim::choose(20)); i.b = -double(sim::choose(20)); bool logs = sim::choose(2); double lastLog = 0; bool haveLog = false;
   std::unique_ptr<V> v; { sim::Lib l; v.reset(new V(s.nth, sim::choose(20), sim::choose(2), true, s.limit, s.gap, mem)); }
   int64_t c0 = sim::nowNs(); sim::advanceNs(slow()); double ct = double(sim::nowNs() - c0) * 1e-9;
   int64_t t0 = sim::nowNs(); long n = long(sim::choose(1 << sim::choose(6)));
   Entry x; x.evaluated = false; x.ret = 0; x.ev = Begin; x.v = i.v; x.b = i.b; x.t = 0; x.it = 0; h.push_back(x);
   if(logs) { sim::Lib l; D::log(*v, 1, 0); }
   { sim::Lib l; D::begin(*v, i); }
   size_t evaluated = 0; std::vector<double> logged;
   for(long k = 1; k <= n; ++k) {
      sim::advanceNs(slow()); if(sim::choose(2)) i.v -= double(sim::choose(5)); if(sim::choose(2)) i.b += double(sim::choose(3)); if(i.b > i.v) i.b = i.v - 1;
      x.ev = Step; x.v = i.v; x.b = i.b; x.t = double(sim::nowNs() - t0) * 1e-9; x.it = size_t(k); x.evaluated = size_t(k) % s.nth == 0;
      { sim::Lib l; x.ret = D::step(*v, i); } h.push_back(x); if(x.evaluated) { ++evaluated; logged.push_back(std::numeric_limits<double>::quiet_NaN()); }
      if(logs && sim::choose(2)) { if(sim::choose(2)) sim::advanceNs(slow()); lastLog = double(k); haveLog = true; if(x.evaluated) logged.back() = lastLog; sim::Lib l; D::log(*v, 2, lastLog); }
      sim::ev("step %ld -> %zu", k, x.ret); if(x.ret) break;
   }
   sim::advanceNs(slow()); x.ev = End; x.v = i.v; x.b = i.b; x.t = double(sim::nowNs() - t0) * 1e-9; x.ret = 0; x.evaluated = false; h.push_back(x);
   { sim::Lib l; D::end(*v, i); } (void)haveLog;
   std::vector<double> C = v->getConstructionTime();
   if(C.size() != 1 || std::fabs(C[0] - ct) > 1e-5) sim::violation(std::string(D::name()) + ":ctime", "construction time %g s instead of %g s (%zu entries)", C.empty() ? 0 : C[0], ct, C.size());
   judge(D::name(), s, h, v->getTimes(), v->getValues(), v->getBounds(), v->getIterations());
   if(logs && v->protocolMap().count("extra")) { const std::vector<double>& L = v->protocolMap().find("extra")->second; if(L.size() != evaluated) sim::violation(std::string(D::name()) + ":log", "%zu extra log entries for %zu evaluated steps", L.size(), evaluated);
      for(size_t k = 0; k < L.size(); ++k) if(!Obs::bits(L[k], logged[k])) sim::violation(std::string(D::name()) + ":log", "extra log entry %zu is %g instead of %g", k, L[k], logged[k]); }
   sim::nontrivial();
}
void run() { switch(sim::choose(4)) { case 2: script<opengm::visitors::TimingVisitor<Script> >(); break; case 3: script<opengm::visitors::ExplicitTimingVisitor<Script> >(); break; default: solver(); } }
sim::Register reg("P13", run);
}
