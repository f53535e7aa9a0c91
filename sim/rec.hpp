// Recording what an optimizer shows to its visitor.
#pragma once
#include "slvrun.hpp"
#include <cstring>
#include <iostream>
namespace slv {
struct Obs { int ev; int status; unsigned long evals; ref::Lab x; double v, b; bool stop;
   bool same(const Obs& o) const { return ev == o.ev && state(o); }
   bool state(const Obs& o) const { return status == o.status && x == o.x && bits(v, o.v) && bits(b, o.b); }
   static bool bits(double a, double b) { return a == b || (a != a && b != b); }
   std::string str() const { std::string s = sim::fmt("%s(arg status %d labels ", ev == 3 ? "return" : evName(ev), status); for(size_t i = 0; i < x.size(); ++i) s += sim::fmt(x[i] < 10 ? "%zu" : "?", x[i]); return s + sim::fmt(", value %.17g, bound %.17g)", v, b); } };
struct Evals : EvalHook { unsigned long n; Evals() : n(0) { evalHook = this; } ~Evals() { evalHook = 0; } void onEval() { ++n; } };
inline Obs observe(int e, Box& b) { EvalHook* eh = evalHook; evalHook = 0; Obs o; o.ev = e; o.stop = false; Evals* ec = dynamic_cast<Evals*>(eh); o.evals = ec ? ec->n : 0; o.status = b.arg(o.x); if(o.status != 1 && o.status != 3) o.x.clear(); o.v = b.value(); o.b = b.bound(); evalHook = eh;
   sim::hashNum(o.v); sim::hashNum(o.b); for(size_t i = 0; i < o.x.size(); ++i) sim::hashInt(o.x[i]); return o; }
struct Rec : Sink {
   std::vector<Obs> o; long stopAt; size_t code; long steps; const char* name; bool nested;
   Rec(const char* n, long s = -1, size_t c = 1) : stopAt(s), code(c), steps(0), name(n), nested(false) {}
   size_t on(int e, Box& b) {
      sim::Harness h; if(steps > 20000) sim::violation(std::string("hang:") + name, "more than 20000 visitor steps");
      o.push_back(observe(e, b)); 
      if(e == Step && steps++ == stopAt) { o.back().stop = true; sim::count("fault.stop-request"); return code; }
      return 0;
   }
   void log(const char* n, double v) { if(!strcmp(n, "visitor-returned") && v != 0 && !o.empty()) o.back().stop = true; }
};
struct NullBuf : std::streambuf { int overflow(int c) { return c == EOF ? 0 : c; } };
struct Quiet { NullBuf n; std::streambuf* old; Quiet() : old(std::cout.rdbuf(&n)) {} ~Quiet() { std::cout.rdbuf(old); } };
} // namespace slv
