// P24: generated benchmark models depend on nothing but their identifier and parameters, and are what was asked for.
#include "sim.hpp"
#include "model.hpp"
#include <opengm/graphicalmodel/graphicalmodel.hxx>
#include <opengm/graphicalmodel/space/discretespace.hxx>
#include <opengm/graphicalmodel/modelgenerators/syntheticmodelgenerator.hxx>
#include <opengm/operations/adder.hxx>
#include <cmath>
#include <cstdlib>
namespace {
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_4(opengm::ExplicitFunction<double>, opengm::ConstantFunction<double>, opengm::PottsFunction<double>, opengm::AbsoluteDifferenceFunction<double>), opengm::DiscreteSpace<> > GM;
typedef opengm::SyntheticModelGenerator<GM> G1; typedef opengm::SyntheticModelGenerator2<GM> G2;
struct Fac { std::vector<size_t> v; std::vector<double> t; bool operator==(const Fac& o) const { return v == o.v && t == o.t; } };
struct Got { std::vector<size_t> L; std::vector<Fac> F; bool operator==(const Got& o) const { return L == o.L && F == o.F; } };
Got take(const GM& gm) {
   Got g; for(size_t i = 0; i < gm.numberOfVariables(); ++i) g.L.push_back(gm.numberOfLabels(i));
   for(size_t f = 0; f < gm.numberOfFactors(); ++f) { Fac a; size_t n = gm[f].numberOfVariables(), s = 1; for(size_t k = 0; k < n; ++k) { a.v.push_back(gm[f].variableIndex(k)); if(gm[f].numberOfLabels(k) != g.L[a.v[k]]) sim::violation("shape", "factor %zu has %zu labels for variable %zu, which has %zu", f, size_t(gm[f].numberOfLabels(k)), a.v[k], g.L[a.v[k]]); s *= g.L[a.v[k]]; }
      std::vector<size_t> l(n + 1, 0); for(size_t i = 0; i < s; ++i) { size_t q = i; for(size_t k = 0; k < n; ++k) { l[k] = q % g.L[a.v[k]]; q /= g.L[a.v[k]]; } a.t.push_back(gm[f](l.begin())); sim::hashNum(a.t.back()); } g.F.push_back(a); }
   return g;
}
struct Source { uint64_t lcg; int mode, burst; Source() : lcg(1), mode(0), burst(0) {}
   long next(long mx) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; uint64_t z = lcg >> 20, k = lcg >> 56; long r = long(z % (uint64_t(mx) + 1)); if(mode == 1) { if(k % 4 == 0) r = 0; if(k % 4 == 1) r = mx; if(k % 8 == 2) r = mx - 1; } if(mode == 2 && k % 4) r = mx - long(z % 300); if(mode == 3 && k % 4) r = long(z % 300);
      if(r == mx && ++burst > 6) r = mx / 2; if(r != mx) burst = 0; return r; } };
Source src;
// What one call should produce, up to the random values.
struct Term { int type; double a, b; bool shared; size_t order; std::vector<double> par; }; // type: 0 none 1 constant 2 uniform [a,b) 3 integer [a,b) 4 potts(0,a) 5 potts(0, v), v in [a,b) 6 |i-j| * a 7 potts(0, v), v in [-a,a] 8 table 9 potts(a,b), both fixed 10 potts(x,y), both in [a,b) 11 |i-j| * v, v in [a,b) 12 constant v in [a,b)
struct Job { int gen, shape; size_t id, w, h, n, labels, ord; bool rnd; std::vector<Term> t; G1::Parameter p1; G2::Parameter p2; std::string str() const; };
std::string Job::str() const { static const char* g[] = { "generator", "generator2" }, *s[] = { "grid", "full", "star", "higher-order-grid" }; std::string r = sim::fmt("%s %s id=%zu %zux%zu n=%zu labels=%zu%s", g[gen], s[shape], id, w, h, n, labels, rnd ? " (random)" : ""); for(size_t i = 0; i < t.size(); ++i) r += sim::fmt(" [type %d a=%g b=%g order %zu%s]", t[i].type, t[i].a, t[i].b, t[i].order, t[i].shared ? " shared" : ""); return r; }
double q() { return double(sim::choose(33)) / 4 - 4; }
Job drawJob() {
   Job j; j.gen = int(sim::choose(2)); j.shape = j.gen ? int(sim::choose(4)) : 0; j.id = sim::choose(1000); j.w = 1 + sim::choose(4); j.h = 1 + sim::choose(4); j.n = 1 + sim::choose(7); j.labels = 1 + sim::choose(4); j.rnd = sim::choose(2); j.ord = 2;
   if(j.gen == 0) {
      j.p1 = G1::Parameter(j.labels, j.rnd); size_t k = 1 + sim::choose(3);
      for(size_t i = 0; i < k; ++i) {
         Term t; t.order = 1 + sim::choose(3); t.shared = sim::choose(2); t.a = double(long(sim::choose(9)) - 4); t.b = t.a + 1 + double(sim::choose(6)); int f = int(sim::choose(t.order == 2 ? 5 : 3)); bool fix = sim::choose(2); std::vector<double> par;
         if(f == 0) { t.type = fix ? 1 : 12; if(fix) par.push_back(q()); }
         if(f == 1 || f == 2) { t.type = f == 1 ? 2 : 3; if(j.rnd) fix = false; if(fix) { size_t s = 1; for(size_t d = 0; d < t.order; ++d) s *= j.labels; for(size_t d = 0; d < s; ++d) par.push_back(f == 1 ? q() : double(long(sim::choose(20)) - 10)); t.type = 8; } }
         if(f == 3) { t.type = fix ? 9 : 10; if(fix) { par.push_back(q()); par.push_back(q()); } }
         if(f == 4) { t.type = fix ? 6 : 11; if(fix) par.push_back(q()); }
         t.par = par; j.t.push_back(t); static const G1::Parameter::FunctionTypes ft[] = { G1::Parameter::CONSTF, G1::Parameter::URANDOM, G1::Parameter::IRANDOM, G1::Parameter::POTTS, G1::Parameter::L1 };
         j.p1.functionsType_.push_back(ft[f]); j.p1.functionsMinMax_.push_back(std::make_pair(t.a, t.b)); j.p1.functionsOrder_.push_back(t.order); j.p1.sharedFunctions_.push_back(t.shared); j.p1.functionsParameter_.push_back(par);
         if(fix) { if(t.type == 1 || t.type == 6) t.a = par[0]; if(t.type == 9) { t.a = par[0]; t.b = par[1]; } j.t.back() = t; }
      }
   } else {
      j.p2.randomNumberOfStates_ = j.rnd; if(j.shape == 3) { j.w = 2 + sim::choose(3); j.h = 2 + sim::choose(3); j.ord = 2 + sim::choose(std::min(j.w, j.h) - 1); }
      for(size_t i = 0; i < 2; ++i) {
         Term t; t.order = i + 1; t.shared = sim::choose(2); t.a = double(long(sim::choose(9)) - 4); t.b = t.a + 1 + double(sim::choose(6)); std::vector<double> p; int f = int(sim::choose(i ? 7 : 4));
         static const G2::FunctionTypes u[] = { G2::URANDOM, G2::IRANDOM, G2::CONSTF, G2::EMPTY }, v[] = { G2::URANDOM, G2::IRANDOM, G2::CONSTF, G2::GPOTTS, G2::RGPOTTS, G2::L1, G2::RPOTTS }; static const int ty[] = { 2, 3, 1, 4, 5, 6, 7 };
         t.type = i == 0 && f == 3 ? 0 : ty[f]; j.p2.functionTypes_[i] = i ? v[f] : u[f]; j.p2.sharedFunctions_[i] = t.shared;
         if(t.type == 2 || t.type == 5) { t.a = q(); t.b = t.a + double(sim::choose(17)) / 4; } if(t.type == 2 || t.type == 3 || t.type == 5) { p.push_back(t.a); p.push_back(t.b); } else if(t.type) { t.a = q(); p.push_back(t.a); }
         if(t.type == 6) t.a = 0.1; j.p2.functionParameters_[i] = p; j.t.push_back(t);
      }
   }
   return j;
}
GM build(const Job& j) { sim::Lib l; if(j.gen == 0) return G1::buildGrid(j.id, j.w, j.h, j.p1); G2 g; return j.shape == 0 ? g.buildGrid(j.id, j.h, j.w, j.labels, j.p2) : j.shape == 1 ? g.buildFull(j.id, j.n, j.labels, j.p2) : j.shape == 2 ? g.buildStar(j.id, j.n, j.labels, j.p2) : g.buildHigherOrderGrid(j.id, j.h, j.w, j.labels, j.ord, j.p2); }
bool in(double v, double a, double b) { return v >= a && (v < b || (a == b && v == a)); }
bool whole(double v) { return v == std::floor(v); }
void value(const Job& j, const Fac& f, const Term& t, const std::vector<size_t>& L) {
   const char* n = j.gen ? "generator2" : "generator"; bool bad = false; double x = f.t[0]; size_t at = 0; double x2 = 0; bool have = false, have2 = false;
   for(size_t i = 0; i < f.t.size() && !bad; ++i) { size_t r = i, c[3] = { 0, 0, 0 }; for(size_t k = 0; k < f.v.size(); ++k) { c[k] = r % L[f.v[k]]; r /= L[f.v[k]]; } bool eq = c[0] == c[1]; double v = f.t[i], d = std::fabs(double(c[0]) - double(c[1])); at = i;
      switch(t.type) {
      case 1: bad = v != t.a; break; case 2: bad = !in(v, t.a, t.b); break; case 3: bad = !in(v, t.a, t.b) || !whole(v); break; case 4: bad = v != (eq ? 0 : t.a); break;
      case 5: if(eq) bad = v != 0; else { bad = !in(v, t.a, t.b) || (have && v != x2); x2 = v; have = true; } break;
      case 6: bad = std::fabs(v - t.a * d) > 1e-12; break; case 7: if(eq) bad = v != 0; else { bad = std::fabs(v) > std::fabs(t.a) || (have && v != x2); x2 = v; have = true; } break;
      case 8: bad = v != t.par[i]; break; case 9: bad = v != (eq ? t.a : t.b); break;
      case 10: { double& y = eq ? x : x2; bool& h = eq ? have2 : have; bad = !in(v, t.a, t.b) || (h && v != y); y = v; h = true; break; }
      case 11: if(d == 0) bad = v != 0; else { if(!have) { x2 = v / d; have = true; } bad = !in(v / d, t.a, t.b) && std::fabs(v / d - t.a) > 1e-12 && std::fabs(v / d - t.b) > 1e-12; bad = bad || std::fabs(v - x2 * d) > 1e-9; } break;
      case 12: bad = !in(v, t.a, t.b) || v != x; break; }
   }
   if(bad) sim::violation(sim::fmt("%s:value-%d", n, t.type), "%s: entry %zu of a factor of type %d is %.17g", j.str().c_str(), at, t.type, f.t[at]);
}
void check(const Job& j, const Got& g) {
   const char* n = j.gen ? "generator2" : "generator"; size_t vars = j.shape == 1 || j.shape == 2 ? j.n : j.w * j.h;
   if(g.L.size() != vars) sim::violation(sim::fmt("%s:variables", n), "%s: %zu variables", j.str().c_str(), g.L.size());
   for(size_t i = 0; i < vars; ++i) if(g.L[i] < 1 || g.L[i] > j.labels || (!j.rnd && g.L[i] != j.labels)) sim::violation(sim::fmt("%s:labels", n), "%s: variable %zu has %zu labels", j.str().c_str(), i, g.L[i]);
   // the scopes every term has to produce
   std::vector<std::vector<std::vector<size_t> > > want(j.t.size()); typedef std::vector<size_t> V;
   for(size_t k = 0; k < j.t.size(); ++k) { const Term& t = j.t[k]; if(t.type == 0) continue; std::vector<V>& o = want[k];
      if(t.order == 1) { for(size_t i = 0; i < vars; ++i) o.push_back(V(1, i)); continue; }
      if(j.gen == 0) { for(size_t x = 0; x < j.w; ++x) for(size_t y = 0; y < j.h; ++y) { V a, b; for(size_t d = 0; d < t.order; ++d) { a.push_back(x + d + y * j.w); b.push_back(x + (y + d) * j.w); } if(x + t.order <= j.w) o.push_back(a); if(y + t.order <= j.h) o.push_back(b); } continue; }
      if(j.shape == 0) for(size_t x = 0; x < j.w; ++x) for(size_t y = 0; y < j.h; ++y) { size_t v = y + j.h * x; V a(1, v), b(1, v); a.push_back(v + 1); b.push_back(v + j.h); if(y + 1 < j.h) o.push_back(a); if(x + 1 < j.w) o.push_back(b); }
      if(j.shape == 1) for(size_t a = 0; a < vars; ++a) for(size_t b = a + 1; b < vars; ++b) { V s(1, a); s.push_back(b); o.push_back(s); }
      if(j.shape == 2) { size_t root = vars; std::vector<size_t> deg(vars, 0); for(size_t f = 0; f < g.F.size(); ++f) if(g.F[f].v.size() == 2) { ++deg[g.F[f].v[0]]; ++deg[g.F[f].v[1]]; } for(size_t i = 0; i < vars; ++i) if(deg[i] == vars - 1) { root = i; break; } if(root == vars) sim::violation("generator2:star", "%s: no variable is connected to all others", j.str().c_str()); for(size_t i = 0; i < vars; ++i) if(i != root) { V s(1, std::min(i, root)); s.push_back(std::max(i, root)); o.push_back(s); } }
      if(j.shape == 3) { want.clear(); break; } // only the values of this one are judged
   }
   if(want.size()) {
      std::vector<V> a, b; for(size_t k = 0; k < want.size(); ++k) a.insert(a.end(), want[k].begin(), want[k].end()); for(size_t f = 0; f < g.F.size(); ++f) b.push_back(g.F[f].v);
      std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if(a != b) { std::string s; for(size_t i = 0; i < b.size(); ++i) { s += " ("; for(size_t k = 0; k < b[i].size(); ++k) s += sim::fmt("%s%zu", k ? "," : "", b[i][k]); s += ")"; } sim::violation(sim::fmt("%s:structure", n), "%s: %zu factors instead of %zu:%s", j.str().c_str(), b.size(), a.size(), s.substr(0, 300).c_str()); }
   }
   // values: the terms come one after the other
   size_t f = 0; for(size_t k = 0; k < j.t.size(); ++k) { if(j.t[k].type == 0) continue; size_t c = want.size() ? want[k].size() : k == 0 ? vars : g.F.size() - f;
      for(size_t i = 0; i < c; ++i) { if(g.F[f + i].v.size() != j.t[k].order) sim::violation(sim::fmt("%s:order", n), "%s: factor %zu has order %zu", j.str().c_str(), f + i, g.F[f + i].v.size()); value(j, g.F[f + i], j.t[k], g.L); }
      if(j.t[k].shared && !(j.gen == 1 && j.rnd)) for(size_t i = 1; i < c; ++i) { bool same = true; size_t first = i; for(size_t e = 0; e < i; ++e) { same = true; for(size_t d = 0; d < j.t[k].order; ++d) same = same && g.L[g.F[f + i].v[d]] == g.L[g.F[f + e].v[d]]; if(same) { first = e; break; } } if(first < i) { sim::count("probe.shared"); if(g.F[f + i].t != g.F[f + first].t) sim::violation(sim::fmt("%s:shared", n), "%s: two factors that should share a function differ", j.str().c_str()); } }
      f += c; }
   sim::nontrivial();
}
void run() {
   static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; sim::Alloc::junk(junk[sim::choose(4)]);
   Job j = drawJob(); sim::sample("%s", j.str().c_str()); sim::where(j.gen ? "generator2" : "generator");
   sim::count((std::string("shape.") + (j.gen ? "2-" : "1-") + sim::fmt("%d", j.shape)).c_str());
   if(sim::choose(2)) { // any random stream
      src = Source(); src.mode = int(sim::choose(4)); src.lcg = 1 + sim::choose(1u << 30); sim::randHook = [](long mx) { return src.next(mx); }; Got g; { GM gm = build(j); g = take(gm); } sim::randHook = nullptr; sim::count(sim::fmt("stream.%d", src.mode).c_str()); check(j, g); return;
   }
   sim::randReset(unsigned(sim::choose(1000))); Got g; { GM gm = build(j); g = take(gm); } check(j, g);
   size_t again = 1 + sim::choose(3);
   for(size_t r = 0; r < again; ++r) { // something else happens in between
      switch(sim::choose(4)) {
      case 0: for(uint64_t k = sim::choose(20); k > 0; --k) rand(); sim::count("history.draws"); break;
      case 1: { Job o = drawJob(); GM gm = build(o); (void)gm; sim::count("history.other-model"); break; }
      case 2: { sim::Alloc::failAt(long(sim::choose(120))); try { GM gm = build(sim::choose(2) ? j : drawJob()); (void)gm; } catch(std::bad_alloc&) {} if(sim::Alloc::fired()) sim::count("fault.alloc-fails"); sim::Alloc::failAt(-1); break; }
      default: srand(unsigned(sim::choose(100))); sim::Alloc::junk(junk[sim::choose(4)]); sim::count("history.reseeded"); }
      Got h; { GM gm = build(j); h = take(gm); }
      if(!(h == g)) sim::violation(sim::fmt("%s:repeat", j.gen ? "generator2" : "generator"), "%s: generated again, the model differs", j.str().c_str());
   }
}
sim::Register reg("P24", run);
}
