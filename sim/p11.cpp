// P11: local search and move making never make the solution worse.
#include "slvrun.hpp"
using namespace slv;
namespace {
struct S11 : Sink {
   const Scenario& c; long stopAt, steps; bool have; double last; const char* lastEv; int seg;
   S11(const Scenario& q) : c(q), stopAt(-1), steps(0), have(false), last(0), lastEv("start"), seg(0) {}
   void look(Box& b, const char* w) {
      sim::Harness h; EvalHook* eh = evalHook; evalHook = 0;
      ref::Lab x; int t = b.arg(x); double v = 0; bool ok = (t == 1 || t == 3) && x.size() == c.m.L.size();
      for(size_t i = 0; ok && i < x.size(); ++i) ok = x[i] < c.m.L[i]; if(isWorst(c.minimise(), b.value()) && !have) ok = false; // nothing found yet
      evalHook = eh;
      evalHook = eh;
      if(!ok) { // no labelling (yet): that is P10's business, unless one was there already
         if(have && lastEv[0] != 's') sim::violation(std::string(c.s->name) + ":lost", "segment %d: at %s #%ld the optimizer reports no valid labelling although it had one of value %.12g at %s", seg, w, steps, last, lastEv);
         return;
      }
      v = c.m.eval(x); sim::hashNum(v); sim::ev("%s %ld %.12g", w, steps, v);
      if(have && better(c.minimise(), last, v) && !close(last, v, 1e-7)) sim::violation(std::string(c.s->name) + ":worse", "segment %d: value %.12g at %s #%ld is worse than %.12g at %s", seg, v, w, steps, last, lastEv);
      have = true; last = v; lastEv = w;
   }
   size_t on(int e, Box& b) {
      if(e != Begin || (c.s->flags & ArgBeforeInfer)) look(b, evName(e));
      if(steps > 20000) sim::violation(std::string("hang:") + c.s->name, "more than 20000 visitor steps");
      if(e == Step && steps++ == stopAt) { sim::count("fault.stop-request"); return 1 + stopAt % 2; }
      return 0;
   }
   void start(const ref::Lab& x) { have = true; last = c.m.eval(x); lastEv = "start"; }
};
ref::Lab rnd(const ref::Model& m) { ref::Lab x(m.L.size()); for(size_t i = 0; i < x.size(); ++i) x[i] = sim::choose(m.L[i]); return x; }
void run() {
   Scenario c = draw(Monotone, true);
   sim::Alloc::junk(0xA5);
   S11 s(c);
   long segments = 1 + long(sim::choose(3));
   std::unique_ptr<Box> b;
   try {
      b.reset(make(c)); if(c.p.hasStart) s.start(c.p.start);
      for(s.seg = 0; s.seg < segments; ++s.seg) {
         if(s.seg) {
            uint64_t how = sim::choose(3); ref::Lab x; int t = b->arg(x); bool valid = (t == 1 || t == 3) && x.size() == c.m.L.size();
            if(how == 0 && (c.s->flags & Rerun)) { sim::ev("run again"); sim::count("history.rerun"); }
            else if(how == 1 && (c.s->flags & StartCall)) { if(!valid || sim::choose(2)) x = rnd(c.m); sim::ev("new start on the same solver"); sim::count("history.setstart"); { sim::Lib l; b->setStart(x); } s.start(x); }
            else { if(!valid || !(c.s->flags & StartPar)) { s.have = false; x.clear(); } if(valid && (c.s->flags & StartPar)) { c.p.start = x; c.p.hasStart = true; } else { c.p.hasStart = false; c.p.start.clear(); }
               sim::ev("new solver%s", c.p.hasStart ? " started from the result" : ""); sim::count("history.newsolver"); b.reset(); b.reset(make(c)); if(c.p.hasStart) s.start(c.p.start); }
         }
         s.steps = 0; s.stopAt = sim::choose(2) ? long(sim::choose(1 << sim::choose(5))) : -1;
         sim::where(c.s->name);
         if(sim::choose(8) == 7) { sim::Lib l; b->inferPlain(); } else { sim::Lib l; b->infer(s); }
         s.look(*b, "return"); sim::nontrivial();
      }
   } catch(std::exception& e) { sim::violation(std::string(c.s->name) + ":throws", "accepted model but threw: %s", e.what()); }
}
sim::Register reg("P11", run);
}
