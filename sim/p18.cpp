// P18: a fault inside inference propagates cleanly.
#include "faults.hpp"
using namespace slv;
namespace {
struct Trace { std::vector<Obs> o; Obs last; unsigned long evals; };
Trace fresh(const Scenario& c, Hub& hub, unsigned seed) {
   Trace t; hub.cur() = Hub::T(); sim::randReset(seed); FSink s(c);
   { std::unique_ptr<Box> b; { sim::Lib l; b.reset(c.s->make(c.gm, c.p)); b->infer(s); } t.last = observe(3, *b); sim::Lib l; b.reset(); }
   t.o = s.o; t.evals = hub.cur().n; return t;
}
std::string differ(const Trace& a, const Trace& b) {
   for(size_t i = 0; i < a.o.size() && i < b.o.size(); ++i) if(!a.o[i].same(b.o[i])) return sim::fmt("callback #%zu is %s instead of %s", i, b.o[i].str().c_str(), a.o[i].str().c_str());
   if(a.o.size() != b.o.size()) return sim::fmt("%zu callbacks instead of %zu", b.o.size(), a.o.size());
   if(!a.last.same(b.last)) return sim::fmt("%s instead of %s", b.last.str().c_str(), a.last.str().c_str());
   if(a.evals != b.evals) return sim::fmt("%lu function evaluations instead of %lu", b.evals, a.evals);
   return std::string();
}
void run() {
   Scenario c = draw(0, true); Hub hub; Quiet q; std::string n = c.s->name; unsigned seed = unsigned(sim::choose(1000));
   static const int junk[] = { 0xA5, 0, 0xFF }; sim::Alloc::junk(junk[sim::choose(3)]); sim::where(c.s->name);
   Trace a; int64_t allocs = 0;
   try { sim::Alloc::failAt(-1); a = fresh(c, hub, seed); allocs = sim::Alloc::seen(); } catch(std::exception& e) { sim::violation(n + ":throws", "accepted model but threw: %s", e.what()); }
   sim::ev("undisturbed: %zu callbacks, %lu evaluations, %ld allocations", a.o.size(), a.evals, long(allocs));
   for(uint64_t rounds = 1 + sim::choose(4); rounds > 0; --rounds) {
      Fault f; f.kind = FEval + int(sim::choose(3)); if(f.kind == FEval && !a.evals) f.kind = FAlloc;
      f.at = long(sim::choose(f.kind == FEval ? a.evals : f.kind == FVisitor ? a.o.size() : uint64_t(allocs + 8)));
      sim::randReset(seed); FSink s(c); s.record = false; sim::where((n + ":" + faultName(f.kind)).c_str());
      hub.cur() = Hub::T(); sim::Alloc::track(true); Outcome r = disturbed(c, hub, f, s); size_t live = sim::Alloc::live(), bytes = sim::Alloc::liveBytes(); sim::Alloc::track(false);
      sim::where(c.s->name); std::string sig = n + ":" + faultName(f.kind);
      if(live) sim::violation(sig + ":leak", "%s: %zu blocks (%zu bytes) are still allocated after the optimizer was destroyed (outcome %d)", f.str().c_str(), live, bytes, r.how);
      if(r.fired) {
         sim::nontrivial(); int want = f.kind == FEval ? 1 : f.kind == FVisitor ? 2 : 3;
         if(r.how != want && !(f.kind == FAlloc && r.how != 0)) sim::violation(sig + ":swallowed", "%s: the exception did not reach the caller (outcome %d %s)", f.str().c_str(), r.how, r.what.c_str());
      } else if(r.how == 4 || r.how == 5) sim::violation(sig + ":throws", "no fault happened but the optimizer threw %s", r.what.c_str());
      std::string e = compareModels(c.gm, c.m); if(!e.empty()) sim::violation(sig + ":model", "%s: the model changed: %s", f.str().c_str(), e.c_str());
      try { Trace b = fresh(c, hub, seed); std::string d = differ(a, b); if(!d.empty()) sim::violation(sig + ":aftermath", "after %s a new optimizer behaves differently: %s", f.str().c_str(), d.c_str()); }
      catch(std::exception& x) { sim::violation(sig + ":aftermath", "after %s a new optimizer throws %s", f.str().c_str(), x.what()); }
   }
}
sim::Register reg("P18", run);
}
