// Deterministic simulation core: one choice tape decides everything.
//
// A run is a pure function of (property, tape, code under test).  In explore
// mode the tape is produced by a PRNG seeded from VERIF_SEED, the property and
// the run number; in replay mode it is read from a file and every choice past
// its end is 0.  Each run executes in its own forked process.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
uint64_t choose(uint64_t n);                 // uniform in [0,n), n>=1
inline bool coin(unsigned num, unsigned den) { // true with probability num/den; "false" is the simple (0) choice
   return choose(den) >= den - num;
}
inline long range(long lo, long hi) { return lo + static_cast<long>(choose(static_cast<uint64_t>(hi - lo + 1))); }
uint64_t choices();                          // number of choices made so far

// ---------------------------------------------------------------- log, verdicts
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // event: hashed, kept for replay/sample
void hashNum(double v);                      // add a number to the trace hash
void hashInt(uint64_t v);
[[noreturn]] void violation(const std::string& signature, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void where(const char* w);                   // what is being executed (names crashes and hangs)
[[noreturn]] void finish();                  // end the run early (still a normal run)
void count(const char* name, uint64_t n = 1);// named counter (faults fired, probes hit, ...)
void nontrivial();                           // this run exercised the property non-trivially
void interleaving(uint64_t h);               // distinct schedules / states measure
uint64_t traceHash();
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // human readable case description
bool replaying();
bool thorough();

// ---------------------------------------------------------------- simulated time
int64_t nowNs();
void advanceNs(int64_t d);
extern bool clockActive;                     // when set, clock_gettime & co read the simulated clock
extern std::function<void()> onClockRead;    // called before each read of the simulated clock

// ---------------------------------------------------------------- randomness seam (rand/srand)
enum RandMode { RandLcg, RandTape };
extern RandMode randMode;
extern std::function<long(long)> randHook;   // optional override: gets RAND_MAX, returns outcome
void randReset(unsigned seed);
uint64_t randCalls();

// ---------------------------------------------------------------- allocation seam
struct Alloc {
   static void track(bool on);               // start/stop recording live blocks (start clears)
   static size_t live();                     // live blocks allocated since track(true)
   static size_t liveBytes();
   static void failAt(int64_t k);            // k-th allocation inside fault windows fails (k>=0); -1: off
   static int64_t seen();                    // allocations seen inside fault windows since failAt()/resetSeen()
   static bool fired();
   static void junk(int byte);               // fill pattern of fresh memory (-1: leave)
};
// Fault windows: allocations fail only while at least one Lib is alive and no Harness is.
struct Lib { Lib(); ~Lib(); };
struct Harness { Harness(); ~Harness(); bool saved; };

// ---------------------------------------------------------------- tasks
// Real threads, exactly one of which runs at any time; yieldPoint() lets the tape
// decide who continues.
void runTasks(std::vector<std::function<void()> > bodies);
void yieldPoint();
int currentTask();                           // -1 outside runTasks

// ---------------------------------------------------------------- properties
struct Property { const char* id; void (*run)(); };
struct Register { Register(const char* id, void (*run)(), void (*warm)() = 0); };

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
} // namespace sim
