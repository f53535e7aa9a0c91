// P16: optimizers sharing one model do not influence each other.
#include "faults.hpp"
using namespace slv;
namespace {
struct Trace { std::vector<Obs> o; Obs last; Outcome r; unsigned long evals; };
Trace drive(const Scenario& c, Hub& hub, const Fault& f, unsigned seed, bool yield) {
   Trace t; Hub::T& h = hub.cur(); h = Hub::T(); h.yield = yield; sim::randReset(seed); FSink s(c); s.yield = yield;
   h.throwAt = f.kind == FEval ? f.at : -1; if(f.kind == FStop) s.stopAt = f.at; if(f.kind == FVisitor) s.throwAt = f.at;
   std::unique_ptr<Box> b; t.last = Obs();
   try { sim::Lib l; b.reset(c.s->make(c.gm, c.p)); b->infer(s); }
   catch(UserFault& e) { t.r.how = e.id; } catch(std::exception& e) { t.r.how = 4; t.r.what = e.what(); }
   h.throwAt = -1; t.evals = h.n;
   if(b && !t.r.how) { bool y = h.yield; h.yield = false; t.last = observe(3, *b); h.yield = y; }
   { sim::Lib l; b.reset(); }
   t.o = s.o; return t;
}
std::string differ(const Trace& a, const Trace& b) {
   for(size_t i = 0; i < a.o.size() && i < b.o.size(); ++i) if(!a.o[i].same(b.o[i])) return sim::fmt("callback #%zu is %s instead of %s", i, b.o[i].str().c_str(), a.o[i].str().c_str());
   if(a.o.size() != b.o.size()) return sim::fmt("%zu callbacks instead of %zu", b.o.size(), a.o.size());
   if(a.r.how != b.r.how || a.r.what != b.r.what) return sim::fmt("outcome %d %s instead of %d %s", b.r.how, b.r.what.c_str(), a.r.how, a.r.what.c_str());
   if(!a.r.how && !a.last.same(b.last)) return sim::fmt("%s instead of %s", b.last.str().c_str(), a.last.str().c_str());
   if(a.evals != b.evals) return sim::fmt("%lu function evaluations instead of %lu", b.evals, a.evals);
   return std::string();
}
void run() {
   Scenario c = draw(0, true); Hub hub; Quiet q; sim::where(c.s->name);
   std::vector<Scenario> S(1, c); std::vector<Fault> F; size_t n = 2 + sim::choose(3);
   while(S.size() < n) S.push_back(sim::choose(4) ? drawOther(c) : c); // the same optimizer twice is the likeliest to share something
   for(size_t i = 0; i < n; ++i) F.push_back(sim::choose(3) ? Fault() : drawFault(FVisitor + 1));
   unsigned seed = unsigned(sim::choose(1000));
   std::string before = compareModels(c.gm, c.m); if(!before.empty()) sim::violation("model", "the model is wrong before anything ran: %s", before.c_str());
   sim::Alloc::junk(0xA5); std::vector<Trace> solo, mixed(n);
   for(size_t i = 0; i < n; ++i) { sim::where(S[i].s->name); solo.push_back(drive(S[i], hub, F[i], seed + unsigned(i), false)); if(F[i].kind == FNone && solo[i].r.how) sim::violation(std::string(S[i].s->name) + ":throws", "alone: outcome %d %s", solo[i].r.how, solo[i].r.what.c_str()); }
   sim::Alloc::junk(sim::choose(2) ? 0xA5 : 0x5A);
   std::vector<std::function<void()> > t; std::string w;
   for(size_t i = 0; i < n; ++i) { w += (i ? "+" : "") + std::string(S[i].s->name); t.push_back([&, i] { sim::yieldPoint(); mixed[i] = drive(S[i], hub, F[i], seed + unsigned(i), true); }); }
   sim::where(w.c_str()); sim::runTasks(t); sim::interleaving(sim::traceHash()); sim::count("history.interleaved"); sim::nontrivial();
   for(size_t i = 0; i < n; ++i) { std::string d = differ(solo[i], mixed[i]);
      if(!d.empty()) sim::violation(std::string(S[i].s->name) + ":influenced", "%s (%s) interleaved with %s behaves differently than alone: %s", S[i].s->name, F[i].str().c_str(), w.c_str(), d.c_str()); }
   std::string e = compareModels(c.gm, c.m); if(!e.empty()) sim::violation("model", "the model changed: %s", e.c_str());
}
sim::Register reg("P16", run);
}
