// P17: re-running, resetting and restarting equals a fresh optimizer.
#include "faults.hpp"
using namespace slv;
namespace {
struct Trace { std::vector<Obs> o; Obs last; };
Trace go(const Scenario& c, Box& b, unsigned seed, long stopAt = -1) { Trace t; sim::randReset(seed); FSink s(c); s.stopAt = stopAt; { sim::Lib l; b.infer(s); } t.o = s.o; t.last = observe(3, b); return t; }
std::string differ(const Trace& a, const Trace& b) {
   if(!a.last.same(b.last)) return sim::fmt("it ends in %s instead of %s", b.last.str().c_str(), a.last.str().c_str());
   for(size_t i = 1; i < a.o.size() && i < b.o.size(); ++i) if(!a.o[i].same(b.o[i])) return sim::fmt("callback #%zu is %s instead of %s", i, b.o[i].str().c_str(), a.o[i].str().c_str());
   if(a.o.size() != b.o.size()) return sim::fmt("%zu callbacks instead of %zu", b.o.size(), a.o.size());
   return std::string();
}
ref::Lab rnd(const ref::Model& m) { ref::Lab x(m.L.size()); for(size_t i = 0; i < x.size(); ++i) x[i] = sim::choose(m.L[i]); return x; }
void run() {
   unsigned kind = unsigned(sim::choose(3)); static const unsigned need[] = { Reset, StartCall, Rerun };
   Scenario c = draw(need[kind], true); Hub hub; Quiet q; std::string n = c.s->name; unsigned seed = unsigned(sim::choose(1000)), seed2 = unsigned(sim::choose(1000)); bool mi = c.minimise(); std::string fam = c.s->family;
   static const int junk[] = { 0xA5, 0, 0xFF }; sim::Alloc::junk(junk[sim::choose(3)]); sim::where(c.s->name);
   std::string hist;
   try {
      sim::randReset(seed); std::unique_ptr<Box> b(make(c)); bool ran = false;
      for(uint64_t k = 1 + sim::choose(3); k > 0; --k) { // a history of complete, stopped, failed and plain runs
         uint64_t how = sim::choose(5); sim::where(c.s->name);
         if(how == 0 || !(c.s->flags & Rerun) && ran) { hist += " complete"; if(!ran || (c.s->flags & Rerun)) go(c, *b, unsigned(sim::choose(1000))); else hist += "(skipped)"; }
         else if(how == 1 || how == 2) { long s = long(sim::choose(1 << sim::choose(4))); hist += sim::fmt(" stopped@%ld", s); go(c, *b, unsigned(sim::choose(1000)), s); sim::count("history.stopped"); }
         else if(how == 3) { hist += " plain"; sim::Lib l; b->inferPlain(); }
         else { // aborted by an exception from a function evaluation
            long at = long(sim::choose(1u << sim::choose(8))); Hub::T& h = hub.cur(); h.n = 0; h.throwAt = at; FSink s(c); s.record = false; bool t = false;
            try { sim::Lib l; b->infer(s); } catch(UserFault&) { t = true; } h.throwAt = -1; hist += sim::fmt(t ? " aborted@%ld" : " complete", at); if(t && kind == 2) { b.reset(); sim::randReset(seed); b.reset(make(c)); hist += " new"; } }
         ran = true;
      }
      sim::ev("history:%s", hist.c_str());
      if(kind == 2) { // run twice in a row
         ref::Lab x; int t = b->arg(x); bool ok = t == 1 || t == 3; double v = ok && x.size() == c.m.L.size() ? c.m.eval(x) : 0; bool had = ok && x.size() == c.m.L.size() && ran;
         Trace a = go(c, *b, seed2); sim::nontrivial(); sim::count("history.rerun");
         std::string e = checkState(c, *b, true); if(!e.empty()) sim::violation(n + ":rerun-invalid", "run again after%s: %s", hist.c_str(), e.c_str());
         double w = c.m.eval(a.last.x);
         if(had && (c.s->flags & Monotone) && better(mi, v, w) && !close(v, w)) sim::violation(n + ":rerun-worse", "run again after%s: value %.12g is worse than %.12g", hist.c_str(), w, v);
         if(c.s->flags & Exact) { double o = c.m.best(mi); if(!close(w, o)) sim::violation(n + ":rerun-suboptimal", "run again after%s: value %.12g but the optimum is %.12g", hist.c_str(), w, o); }
      } else {
         ref::Lab x; if(kind == 1 || ((c.s->flags & StartCall) && sim::choose(2))) { x = rnd(c.m); hist += " setStartingPoint"; } bool rs = kind == 0;
         sim::randReset(seed2); Scenario d = c; std::unique_ptr<Box> f(make(d)); if(!x.empty() || c.m.L.empty()) { sim::Lib l; f->setStart(x); } Trace a = go(d, *f, seed2);
         sim::randReset(seed2); if(rs) { sim::Lib l; if(!b->reset()) sim::violation(n + ":no-reset", "reset() is missing"); sim::count("history.reset"); }
         if(!x.empty() || c.m.L.empty()) { sim::Lib l; b->setStart(x); sim::count("history.setstart"); } Trace r = go(c, *b, seed2); sim::nontrivial();
         bool same = rs || fam == "ICM" || fam == "LazyFlipper" || fam == "Gibbs"; // others keep their label schedule or proposal stream
         std::string e = checkState(c, *b, true); if(!e.empty()) sim::violation(n + ":restart-invalid", "after%s%s: %s", hist.c_str(), rs ? " reset" : "", e.c_str());
         if(!x.empty() && ((c.s->flags & Monotone) || fam == "Gibbs")) { double v = c.m.eval(x), w = c.m.eval(r.last.x); if(better(mi, v, w) && !close(v, w)) sim::violation(n + ":restart-worse", "after%s: value %.12g is worse than the new starting point's %.12g", hist.c_str(), w, v); }
         if(same) e = differ(a, r); if(!e.empty()) sim::violation(n + (rs ? ":reset" : ":restart"), "after%s%s: %s", hist.c_str(), rs ? " reset" : "", e.c_str());
      }
   } catch(std::exception& e) { sim::violation(n + ":throws", "accepted model but threw: %s", e.what()); }
}
sim::Register reg("P17", run);
}
