// P20: the Gibbs chain follows its random stream and keeps the best state.
#include "solver_impl.hpp"
#include "slvrun.hpp"
#include "faults.hpp"
#include <opengm/inference/gibbs.hxx>
using namespace slv;
namespace {
struct Stream { std::vector<long> log; int mode; uint64_t lcg; int run; size_t read;
   Stream() : mode(0), lcg(1), run(0), read(0) {}
   long next(long mx) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; uint64_t z = lcg >> 24; long r = long(z % (uint64_t(mx) + 1));
      if(mode == 1) { uint64_t k = (z >> 8) % 6; r = k == 0 ? 0 : k == 1 && run < 3 ? mx : k == 2 ? mx - 1 : k == 3 ? 1 : r; }
      if(mode == 2) r = long(z % 6);                       // close to zero: everything is accepted
      if(mode == 3) { r = mx - long(z % 7); if(run >= 3) r = mx - 1; }
      run = r == mx ? run + 1 : 0; log.push_back(r); return r; }
};
struct Cfg { size_t steps, burn, periods; bool cyclic, temp; double tmin, tmax; ref::Lab start; };

template<class GM, class ACC> struct Chain {
   typedef opengm::Gibbs<GM, ACC> G; typedef opengm::GibbsMarginalVisitor<G> MV;
   const Scenario& c; Cfg cfg; Hub& hub; Stream st; G g; MV mv; std::vector<std::vector<size_t> > mvVars; std::vector<std::vector<double> > mvWant; size_t nAcc, nRej, nBurn;
   // the reference chain
   ref::Lab x, best; double v, bestV; size_t it, cyc; bool mul, mi; long stopAt, throwAt, calls; bool stopped, ended; unsigned long rejected, accepted;
   std::string n;
   Chain(const Scenario& q, const Cfg& f, Hub& h) : c(q), cfg(f), hub(h), g(Pick<GM>::get(q.gm), par(f)), mv(Pick<GM>::get(q.gm)), nAcc(0), nRej(0), nBurn(0), mul(q.m.mul), mi(!q.m.mul), rejected(0), accepted(0), n(q.m.mul ? "gibbs-mul-max" : "gibbs-min") { fresh(); }
   static typename G::Parameter par(const Cfg& f) { return typename G::Parameter(f.steps, f.burn, f.temp, f.tmin, f.tmax, f.periods, f.cyclic ? G::Parameter::CYCLIC : G::Parameter::RANDOM, f.start); }
   void fresh() { x = cfg.start.empty() ? ref::Lab(c.m.L.size(), 0) : cfg.start; restart(); }
   void restart() { v = c.m.eval(x); best = x; bestV = v; }
   double frac(long r) const { return double(r) / double(RAND_MAX); }
   void check(const char* when) {
      EvalHook* eh = evalHook; evalHook = 0;
      for(size_t i = 0; i < x.size(); ++i) { size_t s = g.markovState(i); sim::hashInt(s); if(s >= c.m.L[i]) sim::violation(n + ":range", "%s: chain label %zu of variable %zu out of range", when, s, i); }
      for(size_t i = 0; i < x.size(); ++i) if(g.markovState(i) != x[i]) sim::violation(n + ":chain", "%s: variable %zu has label %zu, but the chain driven by this random stream has %zu", when, i, size_t(g.markovState(i)), x[i]);
      if(!close(g.markovValue(), c.m.eval(x))) sim::violation(n + ":value", "%s: tracked value %.12g, but the chain state has value %.12g", when, double(g.markovValue()), c.m.eval(x));
      ref::Lab b(x.size()); for(size_t i = 0; i < x.size(); ++i) { b[i] = g.currentBestState(i); if(b[i] >= c.m.L[i]) sim::violation(n + ":best-range", "%s: best label %zu of variable %zu out of range", when, b[i], i); }
      if(!close(c.m.eval(b), bestV)) sim::violation(n + ":best-state", "%s: the best state has value %.12g, but the chain visited a state with value %.12g", when, c.m.eval(b), bestV);
      if(!close(g.currentBestValue(), bestV)) sim::violation(n + ":best-value", "%s: the best value is %.12g instead of %.12g", when, double(g.currentBestValue()), bestV);
      sim::hashNum(g.markovValue()); sim::hashNum(g.currentBestValue()); sim::count("probe.states"); evalHook = eh;
   }
   long take(const char* what) { if(st.read >= st.log.size()) sim::violation(n + ":stream", "step %zu: %s was not drawn from the random stream", it, what); return st.log[st.read++]; }
   // advances the reference chain by one visible proposal; false: the stream ended first
   bool advance() {
      for(;;) {
         if(it >= cfg.steps + cfg.burn) return false;
         size_t var; if(cfg.cyclic) var = cyc = (cyc + 1) % x.size(); else var = size_t(take("a variable")) % x.size();
         size_t lab = size_t(take("a label")) % c.m.L[var]; size_t k = it++; bool burning = k < cfg.burn;
         if(lab == x[var]) continue;
         ref::Lab y(x); y[var] = lab; double nv = c.m.eval(y); bool acc;
         if(close(nv, v, 1e-12) ? !mul && better(mi, nv, v) : better(mi, nv, v)) acc = true;
         else if(close(nv, v, 1e-12) && mul) acc = tie(x, y) || undecided(var, lab, 1.0, k);
         else acc = undecided(var, lab, mul ? nv / v : std::exp(v - nv), k);
         if(acc) { x = y; v = nv; if(better(mi, v, bestV)) { bestV = v; best = x; } ++accepted; } else ++rejected;
         if(burning) ++nBurn; else { if(acc) ++nAcc; else ++nRej; for(size_t j = 0; j < mvVars.size(); ++j) { size_t o = 0, s = 1; for(size_t q = 0; q < mvVars[j].size(); ++q) { o += x[mvVars[j][q]] * s; s *= c.m.L[mvVars[j][q]]; } mvWant[j][o] += 1; } }
         lastAcc = acc; lastBurn = burning; return true;
      }
   }
   // rounding decides whether equal products of probabilities compare as better: ask the model
   bool tie(const ref::Lab& a, const ref::Lab& b) { EvalHook* eh = evalHook; evalHook = 0; const GM& gm = Pick<GM>::get(c.gm); bool r = gm.evaluate(b.begin()) > gm.evaluate(a.begin()); evalHook = eh; return r; }
   bool lastAcc, lastBurn, plainRun; static void randHookOff() { sim::randHook = nullptr; }
   bool undecided(size_t var, size_t lab, double p, size_t k) {
      if(cfg.temp) p *= (std::cos(double(k) / double(cfg.steps / cfg.periods)) + 1.0) / 2.0 * (cfg.tmax - cfg.tmin) + cfg.tmin;
      double r; do r = frac(take("an acceptance number")); while(r == 1.0);
      if(p != p || (std::fabs(p - r) < 1e-9 && p != 1.0)) { if(plainRun) { randHookOff(); sim::finish(); } return g.markovState(var) == lab; } // too close to call; a run without visitor cannot tell which way it went
      return r < p;
   }
   void drainTo() { drain(); }
   void drain() { st.log.clear(); st.read = 0; }
   struct V { Chain& s; V(Chain& q) : s(q) {}
      void begin(G&) { sim::Harness h; s.calls = 0; s.check("begin"); }
      size_t operator()(G&) { sim::Harness h; Chain& q = s; 
         if(q.stopped) sim::violation(q.n + ":step-after-stop", "the visitor asked to stop but was called again");
         if(!q.advance()) sim::violation(q.n + ":too-many-steps", "callback %ld after all %zu steps were taken", q.calls, q.cfg.steps + q.cfg.burn);
         q.check("callback"); if(q.st.read != q.st.log.size()) sim::violation(q.n + ":stream", "%zu random numbers were drawn but %zu explain the chain", q.st.log.size(), q.st.read);
         if(!q.mvVars.empty()) q.mv(q.g, q.g.markovValue(), q.g.currentBestValue(), q.it - 1, q.lastAcc, q.lastBurn);
         q.drain(); long k = q.calls++;
         if(k == q.throwAt) throw UserFault{ 2 };
         if(k == q.stopAt) { q.stopped = true; sim::count("fault.stop-request"); return 1 + k % 2; } return 0; }
      void end(G&) { sim::Harness h; Chain& q = s; q.ended = true;
         if(!q.stopped && q.advance()) sim::violation(q.n + ":too-few-steps", "the run ended at step %zu of %zu without a callback for the last proposal", q.it, q.cfg.steps + q.cfg.burn);
         if(!q.stopped && q.st.read != q.st.log.size()) sim::violation(q.n + ":stream", "%zu random numbers were drawn but %zu explain the chain", q.st.log.size(), q.st.read);
         q.check("end"); }
      void addLog(const std::string&) {} void log(const std::string&, double) {}
   };
   void infer(bool plain) {
      it = 0; cyc = 0; calls = 0; plainRun = plain; stopped = false; ended = false; drain(); 
      if(plain) { { sim::Lib l; g.infer(); } while(advance()) {} if(st.read != st.log.size()) sim::violation(n + ":stream", "%zu random numbers were drawn but %zu explain the chain", st.log.size(), st.read); check("after a run without visitor"); }
      else { V vis(*this); sim::Lib l; g.infer(vis); }
      { sim::Harness h; if(!plain && !ended) sim::violation(n + ":no-end", "end() was not called"); check("after return");
      EvalHook* eh = evalHook; evalHook = 0; std::vector<typename GM::LabelType> a; int r = g.arg(a); if(r != 1 || a.size() != x.size()) sim::violation(n + ":arg", "arg() returned status %d", r); ref::Lab y(a.begin(), a.end());
      for(size_t i = 0; i < y.size(); ++i) if(y[i] >= c.m.L[i]) sim::violation(n + ":arg", "label %zu of variable %zu out of range", y[i], i);
      if(!close(c.m.eval(y), bestV) || !close(g.value(), bestV)) sim::violation(n + ":arg-best", "arg() reports value %.12g, value() %.12g, but the chain visited a state with value %.12g", c.m.eval(y), double(g.value()), bestV); evalHook = eh; sim::nontrivial(); }
   }
   void addMarginals() {
      size_t k = sim::choose(3); for(size_t j = 0; j < k; ++j) { std::vector<size_t> w; w.push_back(sim::choose(x.size())); if(sim::choose(2) && w[0] + 1 < x.size()) w.push_back(w[0] + 1 + sim::choose(x.size() - w[0] - 1));
         size_t id = w.size() == 1 ? mv.addMarginal(w[0]) : mv.addMarginal(w.begin(), w.end()); if(id != j) sim::violation(n + ":marginal-id", "addMarginal returned %zu instead of %zu", id, j);
         mvVars.push_back(w); size_t s = 1; for(size_t q = 0; q < w.size(); ++q) s *= c.m.L[w[q]]; std::vector<double> z; const typename G::GraphicalModelType::IndependentFactorType& f = mv.marginal(j);
         if(f.size() != s) sim::violation(n + ":marginal-size", "a marginal has %zu entries instead of %zu", size_t(f.size()), s); z = table(f, w); mvWant.push_back(z); base.push_back(z); }
   }
   std::vector<std::vector<double> > base;
   template<class F> std::vector<double> table(const F& f, const std::vector<size_t>& w) { std::vector<double> r; ref::Lab l(w.size(), 0); std::vector<size_t> sh; for(size_t q = 0; q < w.size(); ++q) sh.push_back(c.m.L[w[q]]); do r.push_back(f(l.begin())); while(ref::next(l, sh)); return r; }
   void judgeMarginals() {
      if(mvVars.empty()) return;
      for(size_t j = 0; j < mvVars.size(); ++j) { std::vector<double> t = table(mv.marginal(j), mvVars[j]); for(size_t k = 0; k < t.size(); ++k) if(t[k] != mvWant[j][k]) sim::violation(n + ":marginal", "sample counts of marginal %zu entry %zu are %g instead of %g", j, k, t[k] - base[j][k], mvWant[j][k] - base[j][k]); }
      if(mv.numberOfSamples() != nAcc + nRej || mv.numberOfAcceptedSamples() != nAcc || mv.numberOfRejectedSamples() != nRej) sim::violation(n + ":marginal-samples", "counted %zu samples (%zu accepted) instead of %zu (%zu)", mv.numberOfSamples(), mv.numberOfAcceptedSamples(), nAcc + nRej, nAcc);
      sim::count("probe.marginals");
   }
};
template<class GM, class ACC> void drive(const Scenario& c, const Cfg& cfg) {
   Hub hub; Quiet q; typedef Chain<GM, ACC> C; std::unique_ptr<C> p; { sim::Lib l; p.reset(new C(c, cfg, hub)); }
   C& s = *p; s.st.mode = int(sim::choose(4)); s.st.lcg = 77 + sim::choose(1u << 20); s.addMarginals(); bool plainUsed = false;
   sim::randHook = [&](long mx) { return s.st.next(mx); };
   s.check("after construction");
   for(uint64_t k = 1 + sim::choose(4); k > 0; --k) {
      uint64_t how = sim::choose(6); s.stopAt = s.throwAt = -1; hub.cur().n = 0; hub.cur().throwAt = -1; sim::where(s.n.c_str());
      if(how == 1) { sim::Lib l; s.g.reset(); sim::Harness h; s.fresh(); sim::count("history.reset"); sim::ev("reset"); s.check("after reset"); continue; }
      if(how == 2) { ref::Lab y(c.m.L.size()); for(size_t i = 0; i < y.size(); ++i) y[i] = sim::choose(c.m.L[i]); std::vector<typename GM::LabelType> z(y.begin(), y.end()); { sim::Lib l; s.g.setStartingPoint(z.begin()); } s.x = y; s.restart(); sim::count("history.setstart"); sim::ev("start"); s.check("after setStartingPoint"); continue; }
      if(how == 3) s.stopAt = long(sim::choose(20)); if(how == 4) hub.cur().throwAt = long(sim::choose(1u << sim::choose(8))); if(how == 5) s.throwAt = long(sim::choose(20));
      bool plain = how == 0 && s.mvVars.empty() && sim::choose(2); plainUsed |= plain;
      try { s.infer(plain); sim::count("history.run"); }
      catch(UserFault&) { hub.cur().throwAt = -1; // the chain stays where it was
         sim::count(how == 4 ? "fault.function-throws" : "fault.visitor-throws"); sim::ev("aborted after %ld callbacks", s.calls); sim::Harness h; s.drainTo(); s.check("after an aborted run"); }
      sim::ev("%llu: %ld callbacks, value %g best %g", (unsigned long long)how, s.calls, s.v, s.bestV);
   }
   s.judgeMarginals(); sim::randHook = nullptr; sim::interleaving(sim::traceHash()); sim::count("chain.accepted", s.accepted); sim::count("chain.rejected", s.rejected);
   std::string e = compareModels(c.gm, c.m); if(!e.empty()) sim::violation(s.n + ":model", "the model changed: %s", e.c_str());
}
void run() {
   Scenario c; ref::GenOpt o; anyModel(o); o.order0 = true; bool mul = sim::choose(2); o.mul = mul; if(mul) o.positive = true; o.allKinds = false;
   { sim::Harness h; c.m = ref::gen(o); static Solver dummy = { "gibbs", true, false, 0, 0, 0, 0, "Gibbs" }; c.s = &dummy; c.gm = buildModels(c.m, true); }
   if(mul) { double w = c.m.best(true); if(!(w > 0)) sim::finish(); } // zero probabilities have no acceptance ratio
   Cfg f; f.steps = sim::choose(40); f.burn = sim::choose(12); f.cyclic = sim::choose(2); f.temp = f.steps > 0 && sim::choose(3) == 2; f.periods = f.temp ? sim::range(1, long(f.steps)) : 10; f.tmin = 0.1 * sim::choose(4); f.tmax = f.tmin + 0.3 * sim::choose(4);
   if(sim::choose(2)) { f.start.resize(c.m.L.size()); for(size_t i = 0; i < f.start.size(); ++i) f.start[i] = sim::choose(c.m.L[i]); }
   static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; sim::Alloc::junk(junk[sim::choose(4)]);
   sim::sample("gibbs steps=%zu burnin=%zu %s%s %s", f.steps, f.burn, f.cyclic ? "cyclic" : "random", f.temp ? sim::fmt(" temp %g..%g periods=%zu", f.tmin, f.tmax, f.periods).c_str() : "", c.m.str().c_str());
   try { if(mul) drive<GMM, opengm::Maximizer>(c, f); else drive<GMA, opengm::Minimizer>(c, f); }
   catch(std::exception& e) { sim::violation("gibbs:throws", "threw: %s", e.what()); }
}
sim::Register reg("P20", run);
}
