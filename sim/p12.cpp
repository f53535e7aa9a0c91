// P12: stop requests are honoured and callbacks are well ordered.
#include "rec.hpp"
using namespace slv;
namespace {
void order(const Scenario& c, const Rec& r, const Obs& ret, const char* how, bool ours = true) {
   std::string n = c.s->name; const std::vector<Obs>& o = r.o;
   size_t beg = 0, end = 0; for(size_t i = 0; i < o.size(); ++i) { beg += o[i].ev == Begin; end += o[i].ev == End; }
   if(beg != 1 || o[0].ev != Begin) sim::violation(n + ":begin", "%s: begin was called %zu times, first callback is %s", how, beg, o.empty() ? "none" : evName(o[0].ev));
   if(end != 1 || o.back().ev != End) sim::violation(n + ":end", "%s: end was called %zu times, last callback is %s", how, end, evName(o.back().ev));
   std::string fam = c.s->family; bool closes = fam == "AStar" || fam == "ADSal" || fam == "Nesterov"; // these report their final result once more before end
   for(size_t i = 0; i < o.size(); ++i) if(o[i].stop) {
      sim::nontrivial(); size_t j = i + 1;
      if(o[j].ev == Step && closes && o[j + 1].ev == End) { ++j; sim::count("probe.closing-report"); }
      if(o[j].ev == Step) sim::violation(n + ":step-after-stop", "%s: the visitor asked to stop at callback #%zu but was called again: %s", how, i, o[j].str().c_str());
      if(ours && ret.evals != o[i].evals && !(fam == "SelfFusion" && i == 1)) // the inner optimizer of SelfFusion cannot be stopped before its first step
         sim::violation(n + ":evaluates-after-stop", "%s: stop was requested at callback #%zu but the model was evaluated %lu more times", how, i, ret.evals - o[i].evals);
      bool none = isWorst(c.minimise(), o[i].v); // a first labelling may still be reported
      if(!none && !(o[i].status == o[j].status && o[i].x == o[j].x && Obs::bits(o[i].v, o[j].v))) sim::violation(n + ":work-after-stop", "%s: stop was requested at callback #%zu %s but the end callback shows %s", how, i, o[i].str().c_str(), o[j].str().c_str());
      if(std::string(c.s->family) != "Gibbs" && !(o[j].status == ret.status && o[j].x == ret.x && Obs::bits(o[j].v, ret.v))) sim::violation(n + ":work-after-end", "%s: stop was requested at callback #%zu %s but after return the optimizer reports %s", how, i, o[i].str().c_str(), ret.str().c_str()); // (Gibbs shows the chain in callbacks and its best state afterwards)
      break;
   }
}
void prefix(const Scenario& c, const Rec& a, const Rec& b, const char* how) {
   for(size_t i = 0; i < b.o.size(); ++i) {
      if(i >= a.o.size() || !a.o[i].same(b.o[i])) sim::violation(std::string(c.s->name) + ":diverges", "%s: callback #%zu is %s but in the undisturbed run it is %s", how, i, b.o[i].str().c_str(), i < a.o.size() ? a.o[i].str().c_str() : "absent");
      if(b.o[i].stop) return;
   }
   if(a.o.size() != b.o.size()) sim::violation(std::string(c.s->name) + ":diverges", "%s: %zu callbacks instead of %zu although nobody asked to stop", how, b.o.size(), a.o.size());
}
void run() {
   Scenario c = draw(0, true); sim::Alloc::junk(0xA5); sim::where(c.s->name); Quiet q;
   unsigned seed = unsigned(sim::choose(1000));
   try {
      Rec a(c.s->name); Obs ra;
      { sim::randReset(seed); std::unique_ptr<Box> b(make(c)); { Evals e; sim::Lib l; b->infer(a); } ra = observe(3, *b); order(c, a, ra, "undisturbed run"); }
      sim::ev("undisturbed: %zu callbacks", a.o.size());
      uint64_t rounds = 1 + sim::choose(3);
      for(uint64_t k = 0; k < rounds; ++k) {
         uint64_t how = sim::choose(6); Evals ec; Rec r(c.s->name); Obs rr; std::string w;
         sim::randReset(seed); std::unique_ptr<Box> b(make(c));
         if(how < 3 && a.steps) { r.stopAt = long(sim::choose(uint64_t(a.steps))); r.code = 1 + sim::choose(2); w = sim::fmt("stop code %zu at step %ld of %ld", r.code, r.stopAt, a.steps); sim::ev("%s", w.c_str()); sim::Lib l; b->infer(r); sim::count("probe.stopped"); }
         else if(how == 3) { TimingSpec t; TimingOut o; t.nth = 1 + sim::choose(3); t.verbose = sim::choose(2);
            if(sim::choose(2)) { sim::clockActive = true; t.timeLimit = double(sim::choose(8)) * 1e-3; sim::onClockRead = [] { sim::advanceNs(1000000 * int64_t(sim::choose(3))); }; }
            if(sim::choose(2)) t.gapLimit = double(sim::choose(8)); w = sim::fmt("timing visitor (every %zu, limit %g s, gap %g)", t.nth, t.timeLimit, t.gapLimit); sim::ev("%s", w.c_str()); sim::Lib l; b->inferTiming(t, o, r); sim::count("probe.timing"); sim::clockActive = false; }
         else if(how == 4) { w = "verbose visitor"; sim::ev("verbose"); sim::Lib l; b->inferVerbose(1 + sim::choose(3), r); sim::count("probe.verbose"); }
         else { sim::ev("plain"); { sim::Lib l; b->inferPlain(); } rr = observe(3, *b); sim::count("probe.plain"); sim::nontrivial();
            if(!ra.state(rr)) sim::violation(std::string(c.s->name) + ":plain", "infer() without a visitor ends in %s, with a visitor that never stops in %s", rr.str().c_str(), ra.str().c_str());
            continue; }
         rr = observe(3, *b); sim::ev("%zu callbacks", r.o.size());
         order(c, r, rr, w.c_str(), how < 3); prefix(c, a, r, w.c_str());
      }
   } catch(std::exception& e) { sim::violation(std::string(c.s->name) + ":throws", "accepted model but threw: %s", e.what()); }
}
sim::Register reg("P12", run);
}
