// Reference model (plain tables) and generator; independent of opengm's evaluation code.
#pragma once
#include "sim.hpp"
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <limits>
#include <string>
#include <vector>

namespace ref {
typedef std::vector<size_t> Lab;
enum Kind { Explicit, Potts, PottsN, PottsG, AbsDiff, SqDiff, TruncAbs, TruncSq, Sparse, Constant, NKinds };
inline const char* kindName(int k) { static const char* n[] = { "explicit", "potts", "pottsN", "pottsG", "absdiff", "sqdiff", "truncabs", "truncsq", "sparse", "constant", "user" }; return n[k]; }

struct Function {                       // a function of `shape`, first variable fastest
   int kind;
   std::vector<size_t> shape;
   std::vector<double> p;               // parameters (kind dependent)
   std::vector<double> t;               // full table
   size_t size() const { size_t s = 1; for(size_t i = 0; i < shape.size(); ++i) s *= shape[i]; return s; }
   double at(const Lab& l) const { size_t o = 0, st = 1; for(size_t i = 0; i < shape.size(); ++i) { o += l[i] * st; st *= shape[i]; } return t[o]; }
};
inline bool next(Lab& l, const std::vector<size_t>& shape) { for(size_t i = 0; i < l.size(); ++i) { if(++l[i] < shape[i]) return true; l[i] = 0; } return false; }

inline double formula(const Function& f, const Lab& l) {
   double d = l.size() > 1 ? static_cast<double>(l[0]) - static_cast<double>(l[1]) : 0;
   switch(f.kind) {
   case Potts: return l[0] == l[1] ? f.p[0] : f.p[1];
   case PottsN: { for(size_t i = 1; i < l.size(); ++i) if(l[i] != l[0]) return f.p[1]; return f.p[0]; }
   case PottsG: { // partition of the variables into equal-label classes; values indexed by canonical class string
      std::vector<size_t> c(l.size()); size_t n = 0; for(size_t i = 0; i < l.size(); ++i) { size_t j = 0; while(j < i && l[j] != l[i]) ++j; c[i] = j < i ? c[j] : n++; }
      size_t h = 0; for(size_t i = 0; i < c.size(); ++i) h = h * 5 + c[i]; return f.p[h % f.p.size()]; }
   case AbsDiff: return std::fabs(d) * f.p[0];
   case SqDiff: return d * d * f.p[0];
   case TruncAbs: return std::min(std::fabs(d), f.p[0]) * f.p[1];
   case TruncSq: return std::min(d * d, f.p[0]) * f.p[1];
   case Constant: return f.p[0];
   default: return 0;
   }
}
inline void fillFromFormula(Function& f) { Lab l(f.shape.size(), 0); f.t.clear(); do f.t.push_back(formula(f, l)); while(next(l, f.shape)); }

struct Factor { std::vector<size_t> v; size_t fn; };
struct Model {
   std::vector<size_t> L;
   std::vector<Function> fn;
   std::vector<Factor> F;
   bool mul;
   Model() : mul(false) {}
   double neutral() const { return mul ? 1.0 : 0.0; }
   double value(size_t f, const Lab& x) const { Lab l(F[f].v.size()); for(size_t i = 0; i < l.size(); ++i) l[i] = x[F[f].v[i]]; return fn[F[f].fn].at(l); }
   double eval(const Lab& x) const { double r = neutral(); for(size_t f = 0; f < F.size(); ++f) { double v = value(f, x); if(mul) r *= v; else r += v; } return r; }
   size_t states() const { size_t s = 1; for(size_t i = 0; i < L.size(); ++i) { if(s > 1000000 / L[i]) return 1000000; s *= L[i]; } return s; }
   double best(bool minimise, Lab* arg = 0) const {
      Lab x(L.size(), 0); double b = 0; bool first = true;
      do { double v = eval(x); if(first || (minimise ? v < b : v > b)) { b = v; first = false; if(arg) *arg = x; } } while(next(x, L));
      return b;
   }
   size_t maxOrder() const { size_t m = 0; for(size_t f = 0; f < F.size(); ++f) m = std::max(m, F[f].v.size()); return m; }
   std::string str() const {
      std::string s = mul ? "mul L=" : "add L="; for(size_t i = 0; i < L.size(); ++i) s += sim::fmt("%zu", L[i]) + (i + 1 < L.size() ? "," : "");
      for(size_t f = 0; f < F.size() && s.size() < 1500; ++f) { s += sim::fmt(" f%zu:%s(", f, kindName(fn[F[f].fn].kind)); for(size_t i = 0; i < F[f].v.size(); ++i) s += sim::fmt(i ? ",%zu" : "%zu", F[f].v[i]); s += ")"; if(fn[F[f].fn].t.size() <= 9) { s += "["; for(size_t i = 0; i < fn[F[f].fn].t.size(); ++i) s += sim::fmt(i ? " %g" : "%g", fn[F[f].fn].t[i]); s += "]"; } }
      return s;
   }
};

enum Energy { General, Submodular, Metric, Convex, Supermodular, AnyPotts };
struct GenOpt {
   size_t minVars, maxVars, minLabels, maxLabels, maxOrder, maxFactors, maxStates;
   bool uniformLabels, acyclic, order0, unaries, allKinds, duplicates, share, mul, positive, connected, only2, noUnaries, grid;
   Energy energy;
   GenOpt() : minVars(1), maxVars(6), minLabels(1), maxLabels(4), maxOrder(3), maxFactors(10), maxStates(5000), uniformLabels(false), acyclic(false), order0(true), unaries(false), allKinds(false), duplicates(true), share(true), mul(false), positive(false), connected(false), only2(false), noUnaries(false), grid(false), energy(General) {}
};
inline double val(const GenOpt& o) {
   if(o.mul) { static const double v[] = { 1, 2, 0.5, 3, 4, 0.25, 1.5, 5 }; return v[sim::choose(8)]; }
   double v = static_cast<double>(sim::choose(33)) / 4; // 0 .. 8
   if(!o.positive && sim::choose(2)) v = -v;
   return v;
}
// a random function of the given shape
inline Function genFunction(const GenOpt& o, const std::vector<size_t>& shape) {
   Function f; f.shape = shape; f.kind = Explicit;
   size_t k = shape.size();
   if((o.energy == Submodular || o.energy == Supermodular) && k == 2 && shape[0] == 2 && shape[1] == 2) {
      double a = val(o), d = val(o), b = val(o), c = val(o);
      if(b + c < a + d) { std::swap(a, b); std::swap(d, c); }
      f.t.push_back(a); f.t.push_back(b); f.t.push_back(c); f.t.push_back(d);
      if(o.energy == Supermodular) for(size_t i = 0; i < 4; ++i) f.t[i] = -f.t[i];
      return f;
   }
   if((o.energy == Submodular || o.energy == Supermodular) && k == 3 && f.size() == 8) { // a sum of submodular monomials
      double c0 = val(o), u[3], p[3], q1 = double(sim::choose(17)) / 4, q2 = double(sim::choose(17)) / 4; uint64_t style = sim::choose(4);
      for(int i = 0; i < 3; ++i) { u[i] = val(o); p[i] = double(sim::choose(17)) / 4; } if(style == 0) q1 = 0; if(style == 1) q2 = 0; if(style == 3) p[0] = p[1] = p[2] = 0;
      for(size_t i = 0; i < 8; ++i) { double x = i & 1, y = (i >> 1) & 1, z = (i >> 2) & 1, v = c0 + u[0] * x + u[1] * y + u[2] * z - p[0] * x * y - p[1] * x * z - p[2] * y * z - q1 * x * y * z - q2 * (1 - x) * (1 - y) * (1 - z); f.t.push_back(o.energy == Supermodular ? -v : v); }
      return f;
   }
   if(o.energy == AnyPotts && k == 2) {
      double e = sim::choose(2) ? 0 : val(o), d = val(o); if(sim::choose(2)) { f.kind = Potts; f.p.push_back(e); f.p.push_back(d); fillFromFormula(f); return f; }
      for(size_t b = 0; b < shape[1]; ++b) for(size_t a = 0; a < shape[0]; ++a) f.t.push_back(a == b ? e : d); return f;
   }
   if(o.energy == Metric && k == 2) {
      double w = static_cast<double>(sim::choose(17)) / 4;
      if(o.allKinds && sim::choose(2)) { f.kind = Potts; f.p.push_back(0); f.p.push_back(w); fillFromFormula(f); return f; }
      size_t m = sim::choose(3); double tr = 1 + static_cast<double>(sim::choose(3));
      for(size_t b = 0; b < shape[1]; ++b) for(size_t a = 0; a < shape[0]; ++a) { double d = std::fabs(double(a) - double(b)); f.t.push_back(m == 0 ? (a == b ? 0 : w) : m == 1 ? w * d : w * std::min(d, tr)); }
      return f;
   }
   if(o.energy == Convex && k == 2) {
      double w = static_cast<double>(sim::choose(17)) / 4;
      for(size_t b = 0; b < shape[1]; ++b) for(size_t a = 0; a < shape[0]; ++a) { double d = std::fabs(double(a) - double(b)); f.t.push_back(w * d * d); }
      return f;
   }
   if(o.allKinds && k >= 1) {
      int kind = static_cast<int>(sim::choose(NKinds));
      if(k != 2 && (kind == Potts || (kind >= AbsDiff && kind <= TruncSq))) kind = k == 1 ? Explicit : PottsN;
      if(k == 1 && (kind == PottsN || kind == PottsG)) kind = Constant;
      f.kind = kind;
      double p1 = val(o), p2 = val(o);
      switch(kind) {
      case Potts: case PottsN: f.p.push_back(p1); f.p.push_back(p2); break;
      case PottsG: { size_t bell[] = { 1, 1, 2, 5, 15, 52 }; for(size_t i = 0; i < bell[k]; ++i) f.p.push_back(val(o)); break; }
      case AbsDiff: case SqDiff: case Constant: f.p.push_back(p1); break;
      case TruncAbs: case TruncSq: f.p.push_back(static_cast<double>(sim::choose(5))); f.p.push_back(p2); break;
      default: break;
      }
      if(kind == Explicit) { size_t n = f.size(); for(size_t i = 0; i < n; ++i) f.t.push_back(val(o)); }
      else if(kind == Sparse) { double d = val(o); f.p.push_back(d); size_t n = f.size(); for(size_t i = 0; i < n; ++i) f.t.push_back(sim::choose(2) ? d : val(o)); }
      else fillFromFormula(f);
      return f;
   }
   size_t n = f.size();
   for(size_t i = 0; i < n; ++i) f.t.push_back(val(o));
   return f;
}
inline bool submodular(const Function& f, bool super) { // of two or three binary variables
   double s = super ? -1 : 1; const std::vector<double>& t = f.t; if(t.size() == 4) return s * (t[1] + t[2] - t[0] - t[3]) >= 0; if(t.size() != 8) return false;
   for(int fixed = 0; fixed < 3; ++fixed) for(int v = 0; v < 2; ++v) { int a = 1 << ((fixed + 1) % 3), b = 1 << ((fixed + 2) % 3), o = v << fixed; if(s * (t[o + a] + t[o + b] - t[o] - t[o + a + b]) < 0) return false; }
   return true;
}
inline void addFactor(Model& m, const GenOpt& o, const std::vector<size_t>& vars) {
   std::vector<size_t> shape; for(size_t i = 0; i < vars.size(); ++i) shape.push_back(m.L[vars[i]]);
   Factor f; f.v = vars; f.fn = m.fn.size();
   if(o.share && sim::coin(1, 4)) { std::vector<size_t> c; for(size_t i = 0; i < m.fn.size(); ++i) if(m.fn[i].shape == shape) c.push_back(i); if(!c.empty()) f.fn = c[sim::choose(c.size())]; }
   if(f.fn == m.fn.size()) m.fn.push_back(genFunction(o, shape));
   m.F.push_back(f);
}
inline void genVars(Model& m, const GenOpt& o) {
   size_t n = sim::range(o.minVars, o.maxVars), u = sim::range(o.minLabels, o.maxLabels);
   for(size_t i = 0; i < n; ++i) { size_t l = o.uniformLabels ? u : sim::range(o.minLabels, o.maxLabels); if(m.states() * l > o.maxStates) l = o.uniformLabels ? l : o.minLabels; if(m.states() * l > o.maxStates && i >= o.minVars) break; m.L.push_back(l); }
}
// width of a grid whose factors come in the usual order: the unaries, then row by row (right, down), 0: another model
inline size_t gridWidth(const Model& m) {
   size_t n = m.L.size(); if(n < 2 || m.F.size() < n) return 0;
   for(size_t w = n; w > 1; --w) {
      if(n % w) continue;
      std::vector<std::vector<size_t> > e; for(size_t i = 0; i < n; ++i) { if(i % w + 1 < w) { std::vector<size_t> v(1, i); v.push_back(i + 1); e.push_back(v); } if(i + w < n) { std::vector<size_t> v(1, i); v.push_back(i + w); e.push_back(v); } }
      bool ok = m.F.size() == n + e.size(); std::vector<char> seen(n, 0);
      for(size_t i = 0; ok && i < n; ++i) { ok = m.F[i].v.size() == 1 && !seen[m.F[i].v[0]]; if(ok) seen[m.F[i].v[0]] = 1; }
      for(size_t i = 0; ok && i < e.size(); ++i) ok = m.F[n + i].v == e[i];
      if(ok) return w;
   }
   return 0;
}
inline Model genGrid(const GenOpt& o) {
   Model m; m.mul = o.mul; size_t w = sim::range(2, 3), h = sim::range(1, w == 2 ? 3 : 2), u = sim::range(o.minLabels, o.maxLabels);
   for(size_t i = 0; i < w * h; ++i) { size_t l = o.uniformLabels ? u : sim::range(o.minLabels, o.maxLabels); if(m.states() * l > 2 * o.maxStates && !o.uniformLabels) l = o.minLabels; m.L.push_back(l); }
   for(size_t i = 0; i < w * h; ++i) addFactor(m, o, std::vector<size_t>(1, i));
   for(size_t i = 0; i < w * h; ++i) { if(i % w + 1 < w) { std::vector<size_t> v(1, i); v.push_back(i + 1); addFactor(m, o, v); } if(i + w < w * h) { std::vector<size_t> v(1, i); v.push_back(i + w); addFactor(m, o, v); } }
   return m;
}
inline Model gen(const GenOpt& o) {
   if(o.grid && sim::coin(1, 3)) return genGrid(o);
   Model m; m.mul = o.mul; genVars(m, o);
   size_t n = m.L.size();
   if(o.unaries) for(size_t i = 0; i < n; ++i) addFactor(m, o, std::vector<size_t>(1, i));
   if(o.acyclic) {
      std::vector<size_t> perm(n); for(size_t i = 0; i < n; ++i) perm[i] = i;
      for(size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[sim::choose(i)]);
      // factor graph stays a forest: every new factor joins at most one old variable per component; here: new variables attach to one old one
      size_t i = 0;
      while(i < n) {
         size_t k = i == 0 ? 0 : 1; // number of old variables in the new factor
         if(!o.connected && i > 0 && sim::coin(1, 5)) k = 0;
         size_t fresh = o.maxOrder > 2 && !o.only2 && sim::coin(1, 4) ? 2 : 1;
         if(fresh > n - i) fresh = n - i;
         if(k == 0) fresh = 1;
         std::vector<size_t> v; if(k) v.push_back(perm[sim::choose(i)]);
         for(size_t j = 0; j < fresh; ++j) v.push_back(perm[i + j]);
         std::sort(v.begin(), v.end());
         if(v.size() > 1) addFactor(m, o, v);
         i += fresh;
      }
      size_t extra = sim::choose(n + 1);
      for(size_t e = 0; e < extra; ++e) addFactor(m, o, std::vector<size_t>(1, sim::choose(n)));
   }
   else {
      size_t k = sim::choose(o.maxFactors + 1);
      if(o.connected) for(size_t i = 1; i < n; ++i) { std::vector<size_t> v; v.push_back(sim::choose(i)); v.push_back(i); addFactor(m, o, v); }
      for(size_t f = 0; f < k; ++f) {
         size_t lo = o.noUnaries ? 2 : 1; if(n < lo) break; size_t ord = std::min<size_t>(n, sim::range(lo, o.maxOrder));
         std::vector<size_t> all(n); for(size_t i = 0; i < n; ++i) all[i] = i;
         std::vector<size_t> v; for(size_t j = 0; j < ord; ++j) { size_t c = sim::choose(all.size()); v.push_back(all[c]); all.erase(all.begin() + c); }
         std::sort(v.begin(), v.end());
         if(!o.duplicates) { bool dup = false; for(size_t q = 0; q < m.F.size(); ++q) if(m.F[q].v == v) dup = true; if(dup) continue; }
         addFactor(m, o, v);
      }
   }
   if(o.order0 && sim::coin(1, 4)) addFactor(m, o, std::vector<size_t>());
   if(m.F.size() > 1 && sim::coin(1, 2)) for(size_t i = m.F.size(); i > 1; --i) std::swap(m.F[i - 1], m.F[sim::choose(i)]);
   return m;
}
} // namespace ref
