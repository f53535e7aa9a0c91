// P10: an optimizer's reported solution is valid at every observable instant.
#include "slvrun.hpp"
using namespace slv;
namespace {
struct S10 : Sink {
   const Scenario& c; long stopAt, steps, calls; std::string err; 
   S10(const Scenario& q) : c(q), stopAt(-1), steps(0), calls(0) {}
   size_t on(int e, Box& b) {
      ++calls; char w[64]; snprintf(w, sizeof w, "%s:callback", c.s->name); sim::where(w);
      sim::ev("%s %ld", evName(e), steps);
      std::string r = checkState(c, b, false);
      if(!r.empty()) sim::violation(std::string(c.s->name) + ":" + evName(e), "at callback %s #%ld: %s", evName(e), steps, r.c_str());
      if(e != Begin) sim::nontrivial();
      sim::where(c.s->name);
      if(e == Step && steps++ == stopAt) { sim::count("fault.stop-request"); return 1 + stopAt % 2; }
      if(steps > 20000) sim::violation(std::string("hang:") + c.s->name, "more than 20000 visitor steps");
      return 0;
   }
};
void run() {
   Scenario c = draw(0, true);
   sim::Alloc::junk(0xA5);
   S10 s(c); s.stopAt = sim::choose(2) ? long(sim::choose(1 << sim::choose(5))) : -1;
   sim::where(c.s->name);
   std::unique_ptr<Box> b;
   try {
      b.reset(make(c));
      { sim::Lib l; b->infer(s); }
      sim::ev("returned after %ld steps", s.steps);
      std::string r = checkState(c, *b, s.stopAt < 0);
      if(!r.empty()) sim::violation(std::string(c.s->name) + ":after", "after infer() (%ld steps%s): %s", s.steps, s.stopAt >= 0 && s.steps > s.stopAt ? ", stopped" : "", r.c_str());
   } catch(std::exception& e) { sim::violation(std::string(c.s->name) + ":throws", "accepted model but threw: %s", e.what()); }
   sim::nontrivial();
}
sim::Register reg("P10", run);
}
