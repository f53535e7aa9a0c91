// Disturbed optimizer runs: stopped, thrown out of a function evaluation or a callback, out of memory.
#pragma once
#include "rec.hpp"
#include <memory>
#include <new>
#include <stdexcept>
namespace slv {
enum FaultKind { FNone, FStop, FEval, FVisitor, FAlloc, NFaults };
inline const char* faultName(int k) { static const char* n[] = { "none", "stop", "function-throws", "visitor-throws", "alloc-fails" }; return n[k]; }
// One evaluation hook shared by all tasks; every task has its own counters.
struct Hub : EvalHook {
   struct T { unsigned long n; long throwAt; bool yield; bool fired; T() : n(0), throwAt(-1), yield(false), fired(false) {} };
   T t[9];
   Hub() { evalHook = this; } ~Hub() { evalHook = 0; }
   T& cur() { return t[sim::currentTask() + 1]; }
   void onEval() { T& c = cur(); unsigned long k = c.n++; if(c.yield && sim::currentTask() >= 0) sim::yieldPoint(); if(c.throwAt >= 0 && k == (unsigned long)c.throwAt) { c.fired = true; sim::count("fault.function-throws"); throw UserFault{ 1 }; } }
};
struct FSink : Sink {
   const Scenario& c; long stopAt, throwAt, steps; bool yield, record; std::vector<Obs> o; bool threw;
   FSink(const Scenario& q) : c(q), stopAt(-1), throwAt(-1), steps(0), yield(false), record(true), threw(false) {}
   size_t on(int e, Box& b) {
      sim::Harness h;
      if(record) o.push_back(observe(e, b));
      if(steps > 20000) sim::violation(std::string("hang:") + c.s->name, "more than 20000 visitor steps");
      long k = steps++; // begin and end count, too
      if(yield && sim::currentTask() >= 0) sim::yieldPoint();
      if(k == throwAt) { threw = true; sim::count("fault.visitor-throws"); throw UserFault{ 2 }; }
      if(e == Step && stopAt >= 0 && k >= stopAt) { sim::count("fault.stop-request"); if(!o.empty()) o.back().stop = true; return 1 + stopAt % 2; }
      return 0;
   }
};
struct Fault { int kind; long at; Fault() : kind(FNone), at(-1) {} std::string str() const { return sim::fmt("%s@%ld", faultName(kind), at); } };
inline Fault drawFault(unsigned kinds = NFaults) { Fault f; f.kind = int(sim::choose(kinds)); f.at = long(sim::choose(1u << sim::choose(f.kind == FEval || f.kind == FAlloc ? 10 : 5))); return f; }
struct Outcome { int how; std::string what; bool fired; Outcome() : how(0), fired(false) {} }; // 0 returned, 1/2 UserFault id, 3 bad_alloc, 4 std::exception, 5 something else
// Constructs the optimizer, runs it under the fault and destroys it. Uses (and resets) the hub's counters of the current task.
inline Outcome disturbed(const Scenario& c, Hub& hub, const Fault& f, FSink& s) {
   Outcome r; Hub::T& t = hub.cur(); t.n = 0; t.fired = false; t.throwAt = f.kind == FEval ? f.at : -1;
   if(f.kind == FStop) s.stopAt = f.at; if(f.kind == FVisitor) s.throwAt = f.at;
   if(f.kind == FAlloc) sim::Alloc::failAt(f.at);
   Box* b = 0;
   try { sim::Lib l; b = c.s->make(c.gm, c.p); b->infer(s); ref::Lab x; b->arg(x); }
   catch(UserFault& e) { r.how = e.id; }
   catch(std::bad_alloc&) { r.how = 3; }
   catch(std::exception& e) { r.how = 4; r.what = e.what(); }
   catch(const char* e) { r.how = 5; r.what = e; }
   catch(std::string& e) { r.how = 5; r.what = e; }
   if(f.kind == FAlloc) { r.fired = sim::Alloc::fired(); sim::Alloc::failAt(-1); if(r.fired) sim::count("fault.alloc-fails"); }
   else r.fired = t.fired || s.threw || (f.kind == FStop && s.steps > f.at);
   t.throwAt = -1;
   { sim::Lib l; delete b; }
   sim::ev("disturbed %s: outcome %d %s", f.str().c_str(), r.how, r.what.c_str());
   return r;
}
} // namespace slv
