// P15: reported bounds are valid at every instant and never retreat.
#include "faults.hpp"
using namespace slv;
namespace {
struct S15 : Sink {
   const Scenario& c; long stopAt, steps; double opt, last; bool have;
   S15(const Scenario& q) : c(q), stopAt(-1), steps(0), opt(q.m.best(q.minimise())), last(0), have(false) {}
   bool dual() const { return (c.s->flags & Bound) != 0; }
   void look(Box& b, const char* w) {
      sim::Harness h; EvalHook* eh = evalHook; evalHook = 0; double d = b.bound(), v = b.value(); ref::Lab x; int t = b.arg(x); evalHook = eh;
      std::string n = c.s->name; sim::hashNum(d); sim::hashNum(v); sim::ev("%s #%ld bound %.12g value %.12g", w, steps, d, v);
      if(d != d) sim::violation(n + ":nan", "at %s #%ld the bound is not a number", w, steps);
      if(better(!c.minimise(), d, opt) && !close(d, opt)) sim::violation(n + ":invalid", "at %s #%ld the bound is %.12g but the optimum is %.12g", w, steps, d, opt);
      if((t == 1 || t == 3) && better(!c.minimise(), d, v) && !close(d, v)) sim::violation(n + ":crosses", "at %s #%ld the bound %.12g is beyond the reported value %.12g", w, steps, d, v);
      if(dual() && have && better(c.minimise(), d, last) && !close(d, last, 1e-9)) sim::violation(n + ":retreats", "at %s #%ld the bound %.12g is weaker than %.12g before", w, steps, d, last);
      last = d; have = true; if(std::fabs(d) < 1e30) sim::nontrivial();
   }
   size_t on(int e, Box& b) {
      look(b, evName(e)); if(steps > 20000) sim::violation(std::string("hang:") + c.s->name, "more than 20000 visitor steps");
      if(e == Step && steps++ == stopAt) { sim::count("fault.stop-request"); return 1 + stopAt % 2; }
      return 0;
   }
};
void run() {
   // three of four runs look at an optimizer that computes bounds
   Scenario c = sim::choose(4) ? draw(Bound, true) : sim::choose(4) ? draw(Exact, true) : draw(0, true); Hub hub; Quiet q; std::string n = c.s->name; bool exact = c.s->flags & Exact, bounded = (c.s->flags & Bound) || !strcmp(c.s->family, "AStar") || !strcmp(c.s->family, "Bruteforce");
   static const int junk[] = { 0xA5, 0, 0xFF }; sim::Alloc::junk(junk[sim::choose(3)]); sim::where(c.s->name);
   try {
      for(uint64_t k = sim::choose(2); k > 0; --k) { Scenario d = drawOther(c); FSink s(d); s.record = false; sim::where((std::string("disturbance:") + d.s->name).c_str()); disturbed(d, hub, drawFault(FVisitor + 1), s); sim::where(c.s->name); }
      std::unique_ptr<Box> b(make(c)); S15 s(c);
      if(!sim::choose(2)) { if(sim::choose(2)) s.stopAt = long(sim::choose(1 << sim::choose(5))); sim::Lib l; b->infer(s); }
      else { // the bound seen by the timing visitor
         TimingSpec t; TimingOut o; t.nth = 1 + sim::choose(2); sim::clockActive = true; if(sim::choose(2)) { t.timeLimit = double(sim::choose(20)) * 1e-3; sim::onClockRead = [] { sim::advanceNs(1000000 * int64_t(sim::choose(3))); }; }
         if(sim::choose(3) == 2) t.gapLimit = double(sim::choose(8));
         { sim::Lib l; b->inferTiming(t, o, s); } sim::clockActive = false; sim::onClockRead = nullptr;
         for(size_t i = 0; i < o.bounds.size(); ++i) {
            if(better(!c.minimise(), o.bounds[i], s.opt) && !close(o.bounds[i], s.opt)) sim::violation(n + ":logged", "the timing log contains the bound %.12g but the optimum is %.12g", o.bounds[i], s.opt);
            if(bounded && i && better(c.minimise(), o.bounds[i], o.bounds[i - 1]) && !close(o.bounds[i], o.bounds[i - 1], 1e-9)) sim::violation(n + ":log-retreats", "the timing log contains the bound %.12g after %.12g", o.bounds[i], o.bounds[i - 1]); }
      }
      s.look(*b, "return");
      (void)exact;
   } catch(std::exception& e) { sim::violation(n + ":throws", "accepted model but threw: %s", e.what()); }
}
sim::Register reg("P15", run);
}
