// Type-erased optimizers: every optimizer that compiles here runs behind one interface.
#pragma once
#include "model.hpp"
#include <memory>

namespace opengm { struct SimFwd; }
namespace slv {
enum Ev { Begin, Step, End };
inline const char* evName(int e) { return e == Begin ? "begin" : e == Step ? "step" : "end"; }

// ------------------------------------------------ seam: evaluation of a user-defined function
struct EvalHook { virtual ~EvalHook() {} virtual void onEval() = 0; };
extern EvalHook* evalHook;
struct UserFault { int id; };             // what the injected failures throw (deliberately not a std::exception)

struct Box;
struct Sink {
   virtual ~Sink() {}
   virtual size_t on(int ev, Box& b) = 0; // return value != 0 from a Step asks to stop
   virtual void log(const char*, double) {}
};
struct TimingSpec { size_t nth; double timeLimit, gapLimit; bool verbose; TimingSpec() : nth(1), timeLimit(std::numeric_limits<double>::infinity()), gapLimit(0), verbose(false) {} };
struct TimingOut { std::vector<double> ctime, times, values, bounds, iterations; std::vector<std::string> extra; std::vector<std::vector<double> > extraVal; };

struct Box {
   virtual ~Box() {}
   virtual int infer(Sink&) = 0;
   virtual int inferPlain() = 0;
   virtual int inferTiming(const TimingSpec&, TimingOut&, Sink&) = 0; // the shipped TimingVisitor observed by a Sink
   virtual int inferVerbose(size_t nth, Sink&) = 0;
   virtual int arg(ref::Lab&, size_t n = 1) = 0;
   virtual double value() = 0;
   virtual double bound() = 0;
   virtual void setStart(const ref::Lab&) = 0;
   virtual bool reset() = 0;                       // false: not offered
   virtual int marginal(size_t, std::vector<double>&) { return 0; }
   virtual int factorMarginal(size_t, std::vector<double>&) { return 0; }
   virtual bool partial(std::vector<bool>&) { return false; } // which labels are claimed to be optimal
   virtual std::string name() = 0;
};
struct Models;                                     // opengm models built from the reference model
Models* buildModels(const ref::Model&, bool hook); // hook: explicit tables become user-defined functions with a seam
void destroyModels(Models*);
std::string compareModels(const Models*, const ref::Model&);
double evaluateModels(const Models*, const ref::Lab&);

struct Par { uint64_t k[12]; ref::Lab start; bool hasStart; std::string desc; Par() : hasStart(false) { for(int i = 0; i < 12; ++i) k[i] = 0; } };

enum Flag {
   Exact = 1,          // returns a global optimum on accepted models (complete run)
   Monotone = 2,       // value never gets worse
   StartPar = 4,       // accepts a start labelling as parameter
   StartCall = 8,      // setStartingPoint has a documented effect
   Reset = 16,         // reset() implemented
   Bound = 32,         // bound() is a real bound after/during inference
   ArgBeforeInfer = 64,// arg/value are meaningful before infer()
   Random = 128,       // uses the random source
   Rerun = 256,        // infer() may be called repeatedly
   Prints = 512,
   NoHookStep = 1024,  // never calls the visitor's step (one shot solver)
   Slow = 2048,
   NoStart = 4096,
   Local = 16384,      // a complete run ends in a local optimum of its move space
   Persistent = 8192   // marks labels that some global optimum shares
};
struct Solver {
   const char* name; bool minimise, mul; unsigned flags;
   void (*gen)(ref::GenOpt&);                       // restricts the generator to accepted models
   void (*draw)(const ref::Model&, Par&);
   Box* (*make)(const Models*, const Par&);
   const char* family;
};
std::vector<Solver>& all();
struct Add { Add(const Solver& s) { all().push_back(s); } };
inline std::vector<const Solver*> with(unsigned flags) { std::vector<const Solver*> r; for(size_t i = 0; i < all().size(); ++i) if((all()[i].flags & flags) == flags) r.push_back(&all()[i]); return r; }
void sortAll();                                     // by name: independent of link order

inline bool better(bool minimise, double a, double b) { return minimise ? a < b : a > b; }
inline bool close(double a, double b, double tol = 1e-6) { if(a == b) return true; double s = 1 + std::fabs(a) + std::fabs(b); return std::fabs(a - b) <= tol * s; }
inline bool isWorst(bool minimise, double v) { return minimise ? v >= std::numeric_limits<double>::max() : v <= -std::numeric_limits<double>::max(); }
} // namespace slv
