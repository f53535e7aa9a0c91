// P25: a complete run of a local search ends in a labelling that no move of its own kind improves.
#include "slvrun.hpp"
using namespace slv;
namespace {
struct S25 : Sink {
   const Scenario& c; long stopAt, steps; bool stopped; S25(const Scenario& q) : c(q), stopAt(-1), steps(0), stopped(false) {}
   size_t on(int e, Box&) { if(steps > 20000) sim::violation(std::string("hang:") + c.s->name, "more than 20000 visitor steps"); if(e == Step && steps++ == stopAt) { stopped = true; sim::count("fault.stop-request"); return 1 + stopAt % 2; } return 0; }
};
struct Judge {
   const Scenario& c; ref::Lab x; double v; const char* when;
   void better(const ref::Lab& y, const char* move) { double w = c.m.eval(y); if(slv::better(c.minimise(), w, v) && !close(v, w)) { std::string a, b; for(size_t i = 0; i < x.size(); ++i) { a += sim::fmt("%zu", x[i]); b += sim::fmt("%zu", y[i]); } sim::violation(std::string(c.s->name) + ":" + move, "%s: the result %s has value %.12g, but the move to %s gives %.12g", when, a.c_str(), v, b.c_str(), w); } sim::count("moves"); }
   void single() { for(size_t i = 0; i < x.size(); ++i) for(size_t l = 0; l < c.m.L[i]; ++l) if(l != x[i]) { ref::Lab y = x; y[i] = l; better(y, "variable"); } }
   // every relabelling of a subset of variables from the given choices per variable
   void all(const std::vector<size_t>& vars, const std::vector<std::vector<size_t> >& labels, const char* move) {
      ref::Lab y = x; std::vector<size_t> at(vars.size(), 0);
      for(;;) { for(size_t k = 0; k < vars.size(); ++k) y[vars[k]] = labels[k][at[k]]; better(y, move); size_t k = 0; while(k < vars.size() && ++at[k] == labels[k].size()) at[k++] = 0; if(k == vars.size()) return; }
   }
   void subsets(size_t depth) { // connected subsets, all their variables changed
      size_t n = x.size(); std::vector<unsigned> adj(n, 0); for(size_t f = 0; f < c.m.F.size(); ++f) { unsigned s = 0; for(size_t k = 0; k < c.m.F[f].v.size(); ++k) s |= 1u << c.m.F[f].v[k]; for(size_t k = 0; k < c.m.F[f].v.size(); ++k) adj[c.m.F[f].v[k]] |= s; }
      for(unsigned s = 1; s < (1u << n); ++s) { if(size_t(__builtin_popcount(s)) > depth) continue;
         unsigned r = s & (0u - s), o; do { o = r; for(size_t i = 0; i < n; ++i) if(r >> i & 1) r |= adj[i] & s; } while(r != o); if(r != s) continue;
         std::vector<size_t> v; std::vector<std::vector<size_t> > l; bool ok = true; for(size_t i = 0; i < n; ++i) if(s >> i & 1) { v.push_back(i); l.push_back(std::vector<size_t>()); for(size_t k = 0; k < c.m.L[i]; ++k) if(k != x[i]) l.back().push_back(k); ok = ok && !l.back().empty(); }
         if(ok) all(v, l, "subset"); }
   }
   void expansion() { for(size_t a = 0; a < c.m.L[0]; ++a) { std::vector<size_t> v; std::vector<std::vector<size_t> > l; for(size_t i = 0; i < x.size(); ++i) if(x[i] != a) { v.push_back(i); l.push_back(std::vector<size_t>(1, x[i])); l.back().push_back(a); } if(!v.empty()) all(v, l, "expansion"); } }
   void swap() { for(size_t a = 0; a < c.m.L[0]; ++a) for(size_t b = a + 1; b < c.m.L[0]; ++b) { std::vector<size_t> v; std::vector<std::vector<size_t> > l; for(size_t i = 0; i < x.size(); ++i) if(x[i] == a || x[i] == b) { v.push_back(i); l.push_back(std::vector<size_t>(1, a)); l.back().push_back(b); } if(!v.empty()) all(v, l, "swap"); } }
};
void judge(const Scenario& c, Box& b, const char* when) {
   sim::Harness h; ref::Lab x; int t = b.arg(x); std::string n = c.s->name, f = c.s->family;
   if((t != 1 && t != 3) || x.size() != c.m.L.size()) sim::violation(n + ":status", "%s: arg() returned status %d and %zu labels", when, t, x.size());
   for(size_t i = 0; i < x.size(); ++i) if(x[i] >= c.m.L[i]) sim::violation(n + ":range", "%s: label %zu of variable %zu out of range", when, x[i], i);
   Judge j = { c, x, c.m.eval(x), when }; sim::hashNum(j.v); sim::nontrivial();
   if(f == "ICM" || f == "PartitionMove") j.single();
   if(f == "ICM" && c.p.k[0]) for(size_t k = 0; k < c.m.F.size(); ++k) { std::vector<std::vector<size_t> > l; for(size_t i = 0; i < c.m.F[k].v.size(); ++i) { l.push_back(std::vector<size_t>()); for(size_t q = 0; q < c.m.L[c.m.F[k].v[i]]; ++q) l.back().push_back(q); } if(l.size()) j.all(c.m.F[k].v, l, "factor"); }
   if(f == "LazyFlipper" || f == "InfAndFlip") j.subsets(size_t(c.p.k[0]));
   if(f == "AlphaExpansion") j.expansion();
   if(f == "AlphaBetaSwap") j.swap();
}
ref::Lab rnd(const ref::Model& m) { ref::Lab x(m.L.size()); for(size_t i = 0; i < x.size(); ++i) x[i] = sim::choose(m.L[i]); return x; }
void run() {
   Scenario c; { sim::Harness h; c.s = drawSolver(Local); c.m = drawModel(c.s);
      if(std::string(c.s->family).compare(0, 5, "Alpha") == 0) for(size_t i = 0; i < c.m.L.size(); ++i) { // no two labellings of equal value
         ref::Factor f; f.v.push_back(i); f.fn = c.m.fn.size(); ref::Function q; q.kind = ref::Explicit; q.shape.push_back(c.m.L[i]); for(size_t l = 0; l < c.m.L[i]; ++l) q.t.push_back(double(sim::choose(1u << 20)) / (1 << 18)); c.m.fn.push_back(q); c.m.F.push_back(f); }
      c.s->draw(c.m, c.p); if(std::string(c.s->family).compare(0, 5, "Alpha") == 0) c.p.k[0] = 0; sim::randReset(unsigned(sim::choose(1000)));
      sim::sample("%s", c.str().c_str()); c.gm = buildModels(c.m, true); sim::count((std::string("solver.") + c.s->name).c_str()); }
   sim::Alloc::junk(0xA5); sim::where(c.s->name);
   try {
      std::unique_ptr<Box> b(make(c)); size_t segments = 1 + sim::choose(4); std::string when = "fresh";
      for(size_t k = 0; k < segments; ++k) {
         S25 s(c); if(k + 1 < segments || sim::choose(4) == 0) s.stopAt = sim::choose(4) ? long(sim::choose(1u << sim::choose(5))) : -1;
         bool plain = s.stopAt < 0 && sim::choose(3) == 0; if(plain) { sim::Lib l; b->inferPlain(); } else { sim::Lib l; b->infer(s); }
         sim::ev("run %zu%s", k, s.stopped ? " stopped" : ""); if(!s.stopped) judge(c, *b, when.c_str()); when = s.stopped ? "after a stopped run" : "after a complete run";
         if(k + 1 == segments) break;
         switch(sim::choose(4)) {
         case 0: if(c.s->flags & StartCall) { ref::Lab x = rnd(c.m); { sim::Lib l; b->setStart(x); } when += " and a new start"; sim::count("history.setstart"); break; } // fall through
         case 1: if(c.s->flags & Reset) { sim::Lib l; b->reset(); when += " and a reset"; sim::count("history.reset"); break; } // fall through
         case 2: if(c.s->flags & Rerun) { sim::count("history.rerun"); break; } // fall through
         default: b.reset(); b.reset(make(c)); when = "fresh"; sim::count("history.newsolver"); }
      }
   } catch(std::exception& e) { sim::violation(std::string(c.s->name) + ":throws", "accepted model but threw: %s", e.what()); }
}
sim::Register reg("P25", run);
}
