// P22: random number utilities stay in range for every random stream.
#include "sim.hpp"
#include "model.hpp"
#include <opengm/utilities/random.hxx>
#include <cmath>
#include <limits>
#include <cstdlib>
namespace {
// The random source: a mixture of uniform and extreme outcomes.
struct Source { int mode; uint64_t lcg; long burst; std::vector<long> log; bool replay; size_t at;
   Source() : mode(0), lcg(1), burst(0), replay(false), at(0) {}
   long raw(long mx) { lcg = lcg * 6364136223846793005ull + 1442695040888963407ull; uint64_t z = lcg >> 20; long u = long(z % (uint64_t(mx) + 1)); uint64_t k = lcg >> 56;
      if(mode == 0) return u;
      if(mode == 1) { switch(k % 8) { case 0: return 0; case 1: return mx; case 2: return mx - 1; case 3: return 1; case 4: return mx - long(z % 200); case 5: return long(z % 200); default: return u; } }
      if(mode == 2) return k % 4 ? mx - long(z % 300) : u;
      return k % 4 ? long(z % 300) : u; }
   long next(long mx) { if(replay && at < log.size()) return log[at++]; long r = raw(mx); if(r == mx && ++burst > 6) r = mx / 2; if(r != mx) burst = 0; if(!replay) log.push_back(r); sim::count(r == mx ? "outcome.max" : r == 0 ? "outcome.zero" : "outcome.other"); return r; }
};
Source* src;
struct Hooked { Source s; Hooked() { src = &s; s.mode = int(sim::choose(4)); s.lcg = 1 + sim::choose(1u << 30); sim::randHook = [](long mx) { return src->next(mx); }; } ~Hooked() { sim::randHook = nullptr; }
   void again() { s.replay = true; s.at = 0; } };
template<class T> std::string str(T v) { return std::is_floating_point<T>::value ? sim::fmt("%.17g", double(v)) : sim::fmt("%lld", (long long)v); }
template<class T, class G> void uniform(const char* name, G& g, T low, T high, size_t n, Hooked& h, G& twin, T twinLow, T twinHigh) {
   std::vector<T> a; std::vector<size_t> seen(16, 0); sim::where(name);
   double span = double(high) - double(low);
   for(size_t i = 0; i < n; ++i) { T r = g(); a.push_back(r); sim::hashNum(double(r)); if(!(r >= low) || !(r < high)) sim::violation(std::string(name) + ":range", "draw %zu returned %s, outside [%s, %s)", i, str(r).c_str(), str(low).c_str(), str(high).c_str());
      size_t b = size_t((double(r) - double(low)) / span * 16); ++seen[b > 15 ? 15 : b]; }
   sim::count("draws", n); sim::nontrivial();
   if(h.s.mode == 0 && n >= 600) { // every part of the interval must be reachable
      if(std::is_floating_point<T>::value) { if(span > 1e-3 * std::fabs(double(low)) && span > 1e-300) for(size_t b = 0; b < 16; ++b) if(!seen[b]) sim::violation(std::string(name) + ":coverage", "no draw fell into part %zu/16 of [%s, %s) in %zu draws of a uniform source", b, str(low).c_str(), str(high).c_str(), n); sim::count("probe.coverage"); }
      else if(span <= 12) { for(double k = 0; k < span; ++k) { bool f = false; for(size_t i = 0; i < n; ++i) if(double(a[i]) == double(low) + k) f = true; if(!f) sim::violation(std::string(name) + ":coverage", "%s was never drawn in %zu draws from [%s, %s)", str(T(double(low) + k)).c_str(), n, str(low).c_str(), str(high).c_str()); } sim::count("probe.coverage"); } }
   (void)twinLow; (void)twinHigh; h.again(); for(size_t i = 0; i < n; ++i) { T r = twin(); if(!(r == a[i])) sim::violation(std::string(name) + ":determinism", "draw %zu of the same stream returned %s instead of %s", i, str(r).c_str(), str(a[i]).c_str()); }
}
template<class T> void integer(const char* name) {
   Hooked h; long long lo, hi; const bool sg = std::numeric_limits<T>::is_signed; const long long top = sizeof(T) == 1 ? (sg ? 127 : 255) : sizeof(T) == 2 ? (sg ? 32767 : 65535) : 1000000000;
   switch(sim::choose(4)) { case 0: lo = 0; hi = 1 + (long long)sim::choose(12); break; case 1: lo = sg ? -(long long)sim::choose(20) : (long long)sim::choose(20); hi = lo + 1 + (long long)sim::choose(9); break;
      case 2: lo = sg ? -(long long)sim::choose(std::min<long long>(top, 100000)) : 0; hi = lo + 1 + (long long)sim::choose(top - 1); if(hi > top) hi = top; break; default: lo = (long long)sim::choose(top - 1); hi = lo + 1 + (long long)sim::choose(uint64_t(top - lo)); }
   if(sizeof(T) == 8 && sim::choose(4) == 3) hi = lo + 1 + (long long)(sim::choose(1ull << 40));
   sim::sample("%s [%lld, %lld)", name, lo, hi); typedef opengm::RandomUniform<T> G; G g, t(T(0), T(1));
   switch(sim::choose(3)) { case 0: g = G(T(lo), T(hi)); break; case 1: g.setLow(T(lo)); g.setHigh(T(hi)); break; default: g = G(T(lo), T(hi), 5 + sim::choose(9)); } t = g;
   uniform<T, G>(name, g, T(lo), T(hi), 20 + sim::choose(900), h, t, T(lo), T(hi));
}
template<class T> void floating(const char* name) {
   Hooked h; T lo, hi; switch(sim::choose(5)) { case 0: lo = 0; hi = 1; break; case 1: lo = T(double(sim::choose(1000)) / 10 - 50); hi = lo + T(0.1) * T(1 + sim::choose(100)); break;
      case 2: lo = T(std::ldexp(double(sim::choose(1u << 24)), -int(sim::choose(60)))); hi = lo + T(std::ldexp(double(1 + sim::choose(1u << 24)), -int(sim::choose(60)))); break;
      case 3: lo = -T(std::ldexp(double(1 + sim::choose(1u << 24)), int(sim::choose(20)) - 30)); hi = T(std::ldexp(double(1 + sim::choose(1u << 24)), int(sim::choose(20)) - 30)); break; default: lo = T(1000); hi = std::nextafter(T(1000), T(2000)); for(uint64_t k = sim::choose(4); k > 0; --k) hi = std::nextafter(hi, T(2000)); }
   if(!(lo < hi)) sim::finish(); sim::sample("%s [%.17g, %.17g)", name, double(lo), double(hi)); typedef opengm::RandomUniform<T> G; G g, t;
   switch(sim::choose(3)) { case 0: g = G(lo, hi); break; case 1: g.setLow(lo); g.setHigh(hi); break; default: g = G(lo, hi, 5 + sim::choose(9)); } t = g;
   uniform<T, G>(name, g, lo, hi, 20 + sim::choose(900), h, t, lo, hi);
}
template<class T, class U> void weighted(const char* name) {
   Hooked h; size_t n = 1 + sim::choose(8); std::vector<double> w(n); double sum = 0; std::string s;
   for(size_t i = 0; i < n; ++i) { switch(sim::choose(6)) { case 0: w[i] = 0; break; case 1: w[i] = 1; break; case 2: w[i] = double(1 + sim::choose(1000)) / 7; break; case 3: w[i] = std::ldexp(1 + double(sim::choose(100)) / 100, -int(sim::choose(40))); break; case 4: w[i] = 0.1; break; default: w[i] = double(1 + sim::choose(9)); } w[i] = double(U(w[i])); sum += w[i]; }
   if(sum == 0) { w[sim::choose(n)] = 1; sum = 1; } for(size_t i = 0; i < n; ++i) s += sim::fmt(" %.9g", w[i]); sim::sample("%s%s", name, s.c_str()); sim::where(name);
   typedef opengm::RandomDiscreteWeighted<T, U> G; std::vector<double>::const_iterator b = w.begin(); G g; g = sim::choose(2) ? G(b, b + n, size_t(3)) : G(b, b + n);
   std::vector<long> hit(n, 0); std::vector<T> a; size_t d = 20 + sim::choose(600);
   for(size_t k = 0; k < d; ++k) { size_t from = h.s.log.size(); T i = g(); a.push_back(i); sim::hashInt(uint64_t(i)); if(!(size_t(i) < n)) sim::violation(std::string(name) + ":range", "returned index %s of %zu weights", str(i).c_str(), n);
      if(w[size_t(i)] == 0) sim::violation(std::string(name) + ":zero-weight", "draw %zu (source outcome %ld of %ld) returned index %s, whose weight is zero", k, h.s.log.empty() ? 0 : h.s.log.back(), long(RAND_MAX), str(i).c_str()); ++hit[size_t(i)]; (void)from; }
   sim::count("draws", d); sim::nontrivial();
   // with a uniform source the frequencies follow the weights (bound: eight standard deviations)
   if(h.s.mode == 0) { for(size_t i = 0; i < n; ++i) { double p = w[i] / sum, sd = std::sqrt(double(d) * p * (1 - p)); if(std::fabs(double(hit[i]) - double(d) * p) > 8 * sd + 4) sim::violation(std::string(name) + ":frequency", "index %zu with relative weight %.3g was drawn %ld times in %zu draws", i, p, hit[i], d); } sim::count("probe.frequency"); }
   h.again(); G t(g); for(size_t k = 0; k < d; ++k) if(t() != a[k]) sim::violation(std::string(name) + ":determinism", "draw %zu of the same stream differs", k);
}
// seeding: the sequence after construction with a seed does not depend on what was drawn before
template<class T> void seeded(const char* name) {
   typedef opengm::RandomUniform<T> G; sim::randHook = nullptr; T lo = T(sim::choose(5)), hi = lo + T(1 + sim::choose(50)); size_t seed = sim::choose(100000), n = 5 + sim::choose(50); std::vector<T> a; sim::where(name); sim::sample("%s seeds", name);
   { G g(lo, hi, seed); for(size_t i = 0; i < n; ++i) a.push_back(g()); }
   G other(T(0), T(7), seed + 1 + sim::choose(5)); std::vector<T> z; for(uint64_t k = sim::choose(40); k > 0; --k) z.push_back(other());
   G g(lo, hi, seed); for(size_t i = 0; i < n; ++i) { T r = g(); sim::hashNum(double(r)); if(!(r == a[i])) sim::violation(std::string(name) + ":seed", "draw %zu after seeding with %zu is %s, before it was %s", i, seed, str(r).c_str(), str(a[i]).c_str()); }
   std::vector<T> o2; { G h(lo, hi, seed + 1); for(size_t i = 0; i < 40; ++i) o2.push_back(h()); } std::vector<T> o1; { G h(lo, hi, seed); for(size_t i = 0; i < 40; ++i) o1.push_back(h()); } if(double(hi) - double(lo) > 4 && o1 == o2) sim::violation(std::string(name) + ":seed-ignored", "seeds %zu and %zu give the same 40 draws", seed, seed + 1);
   sim::count("probe.seeds"); sim::nontrivial();
}
void run() {
   switch(sim::choose(14)) {
   case 0: integer<int>("uniform<int>"); break; case 1: integer<size_t>("uniform<size_t>"); break; case 2: integer<unsigned char>("uniform<unsigned char>"); break; case 3: integer<short>("uniform<short>"); break; case 4: integer<unsigned>("uniform<unsigned>"); break;
   case 5: case 6: floating<double>("uniform<double>"); break; case 7: case 8: floating<float>("uniform<float>"); break;
   case 9: weighted<size_t, double>("weighted<size_t,double>"); break; case 10: weighted<int, float>("weighted<int,float>"); break; case 11: weighted<size_t, float>("weighted<size_t,float>"); break;
   case 12: seeded<int>("uniform<int>"); break; default: seeded<double>("uniform<double>"); }
   sim::interleaving(sim::traceHash());
}
sim::Register reg("P22", run);
}
