#include "sim.hpp"
#include <atomic>
#include <cerrno>
#include <climits>
#include <cmath>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <condition_variable>
#include <new>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

extern "C" { void* __real_malloc(size_t); void __real_free(void*); }

namespace sim {
namespace {
const size_t TAPE_MAX = 1u << 18;
const size_t NCOUNT = 1024;
const size_t LOG_MAX = 1u << 17;
const size_t NHASH = 1u << 16;

enum Status { StRunning = 0, StOk = 1, StViolation = 2, StBroken = 3 };
struct Counter { char name[56]; uint64_t n; };
struct Shared {
   int status;
   char sig[256];
   char where[128];
   char msg[4096];
   uint64_t hash;
   uint64_t evHash;                         // events only (not the choices): counts distinct behaviours
   uint64_t simNs;
   uint64_t nTape;
   int nontrivial;
   int tapeOverflow;
   uint64_t nInter;
   uint64_t inter[NHASH];
   char sample[4096];
   size_t logLen;
   char log[LOG_MAX];
   uint32_t tape[TAPE_MAX];
   Counter counters[NCOUNT];               // persists over the runs of one worker
};
Shared* S = 0;

bool gReplay = false, gThorough = false, gVerbose = false;
std::vector<uint32_t> gTapeIn;
uint64_t gRng[2];
uint64_t gPos = 0;

uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
uint64_t rngNext() { uint64_t s0 = gRng[0], s1 = gRng[1], r = s0 + s1; s1 ^= s0; gRng[0] = rotl(s0, 24) ^ s1 ^ (s1 << 16); gRng[1] = rotl(s1, 37); return r; }
void mixEv(uint64_t v) { S->evHash = (S->evHash ^ v) * 0x100000001b3ull; S->evHash ^= S->evHash >> 29; }
void mix(uint64_t v) { S->hash = (S->hash ^ v) * 0x100000001b3ull; S->hash ^= S->hash >> 29; }

struct PropEntry { const char* id; void (*run)(); void (*warm)(); };
std::vector<PropEntry>& props() { static std::vector<PropEntry> p; return p; }
bool gInRun = false;
} // namespace

Register::Register(const char* id, void (*run)(), void (*warm)()) { PropEntry e = { id, run, warm }; props().push_back(e); }

std::string fmt(const char* f, ...) {
   char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

// ------------------------------------------------------------------ choices
uint64_t choose(uint64_t n) {
   if(n <= 1) return 0;
   uint32_t v;
   if(gReplay) v = gPos < gTapeIn.size() ? gTapeIn[gPos] : 0;
   else v = static_cast<uint32_t>(rngNext() >> 32) % 0x7fffffffu;
   uint64_t r = n > 0x7fffffffull ? v : v % n;
   if(gPos < TAPE_MAX) { S->tape[gPos] = static_cast<uint32_t>(r); S->nTape = gPos + 1; }
   ++gPos;
   if(gPos >= TAPE_MAX) { S->tapeOverflow = 1; violation("hang:choices", "more than %zu simulated choices in one run", TAPE_MAX); }
   mix(r + 0x51ed);
   return r;
}
uint64_t choices() { return gPos; }

void vlog(const char* f, va_list a) {
   Harness h;
   char b[1024];
   int n = vsnprintf(b, sizeof b, f, a);
   if(n < 0) return;
   if(n >= static_cast<int>(sizeof b)) n = sizeof b - 1;
   for(int i = 0; i < n; ++i) { mix(static_cast<unsigned char>(b[i])); mixEv(static_cast<unsigned char>(b[i])); }
   if(S->logLen + n + 2 < LOG_MAX) { memcpy(S->log + S->logLen, b, n); S->logLen += n; S->log[S->logLen++] = '\n'; S->log[S->logLen] = 0; }
}
void where(const char* w) { snprintf(S->where, sizeof S->where, "%s", w); }
void ev(const char* f, ...) { va_list a; va_start(a, f); vlog(f, a); va_end(a); }
void hashNum(double v) { uint64_t u; memcpy(&u, &v, 8); mix(u); mixEv(u); }
void hashInt(uint64_t v) { mix(v + 77); mixEv(v); }
uint64_t traceHash() { return S->hash; }
void sample(const char* f, ...) {
   Harness h; va_list a; va_start(a, f); char b[2048]; vsnprintf(b, sizeof b, f, a); va_end(a);
   size_t l = strlen(S->sample); if(l + strlen(b) + 2 < sizeof S->sample) { if(l) strcat(S->sample, " | "); strcat(S->sample, b); }
   for(const char* p = b; *p; ++p) mixEv(static_cast<unsigned char>(*p));
}
[[noreturn]] static void endRun(int st) { S->status = st; S->simNs = static_cast<uint64_t>(nowNs()); fflush(stdout); _exit(0); }
void violation(const std::string& sig, const char* f, ...) {
   static char hb[sizeof(Harness)]; new(hb) Harness; // no fault is injected any more
   snprintf(S->sig, sizeof S->sig, "%s", sig.c_str());
   va_list a; va_start(a, f); vsnprintf(S->msg, sizeof S->msg, f, a); va_end(a);
   for(const char* p = S->sig; *p; ++p) mix(static_cast<unsigned char>(*p));
   endRun(StViolation);
}
void finish() { endRun(StOk); }
void count(const char* name, uint64_t n) {
   uint64_t h = 1469598103934665603ull; for(const char* p = name; *p; ++p) h = (h ^ static_cast<unsigned char>(*p)) * 1099511628211ull;
   for(size_t k = 0; k < NCOUNT; ++k) { Counter& c = S->counters[(h + k) % NCOUNT];
      if(!c.name[0]) { snprintf(c.name, sizeof c.name, "%s", name); c.n = n; return; }
      if(!strncmp(c.name, name, sizeof c.name - 1)) { c.n += n; return; } }
}
void nontrivial() { S->nontrivial = 1; }
void interleaving(uint64_t h) { if(S->nInter < NHASH) S->inter[S->nInter++] = h; }
bool replaying() { return gReplay; }
bool thorough() { return gThorough; }

// ------------------------------------------------------------------ time
static int64_t gNow = 0;
bool clockActive = false;
std::function<void()> onClockRead;
int64_t nowNs() { return gNow; }
void advanceNs(int64_t d) { gNow += d; }

// ------------------------------------------------------------------ rand
RandMode randMode = RandLcg;
std::function<long(long)> randHook;
static uint32_t gLcgs[16] = { 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1 }; // one stream per task
#define gLcg gLcgs[(currentTask() + 1) & 15]
static uint64_t gRandCalls = 0;
void randReset(unsigned s) { gLcg = s * 2654435761u + 12345u; }
uint64_t randCalls() { return gRandCalls; }
static int simRand() {
   ++gRandCalls;
   if(randHook) return static_cast<int>(randHook(RAND_MAX));
   if(randMode == RandTape) return static_cast<int>(choose(static_cast<uint64_t>(RAND_MAX) + 1));
   gLcg = gLcg * 1664525u + 1013904223u;
   { uint32_t z = gLcg; z = (z ^ (z >> 16)) * 0x45d9f3bu; z ^= z >> 15; return static_cast<int>(z & 0x7fffffff); }
}

// ------------------------------------------------------------------ allocation
namespace {
int64_t aFailAt = -1, aSeen = 0;
bool aFired = false, aTrack = false;
int aJunk = -1;
int aLib = 0;
bool aHarness = false;
struct Slot { void* p; size_t n; };
Slot* aSlots = 0; size_t aCap = 0, aLive = 0, aBytes = 0, aUsed = 0;
size_t hashp(void* p) { return (reinterpret_cast<size_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 20; }
void slotInsert(Slot* s, size_t cap, void* p, size_t n) { size_t i = hashp(p) & (cap - 1); while(s[i].p && s[i].p != reinterpret_cast<void*>(1)) i = (i + 1) & (cap - 1); s[i].p = p; s[i].n = n; }
void slotAdd(void* p, size_t n) {
   if((aUsed + 1) * 2 > aCap) {
      size_t nc = aCap ? aCap * 2 : 4096; Slot* ns = static_cast<Slot*>(calloc(nc, sizeof(Slot))); aUsed = 0;
      for(size_t i = 0; i < aCap; ++i) if(aSlots[i].p && aSlots[i].p != reinterpret_cast<void*>(1)) { slotInsert(ns, nc, aSlots[i].p, aSlots[i].n); ++aUsed; }
      __real_free(aSlots); aSlots = ns; aCap = nc;
   }
   slotInsert(aSlots, aCap, p, n); ++aUsed; ++aLive; aBytes += n;
}
void slotDel(void* p) {
   if(!aCap) return;
   size_t i = hashp(p) & (aCap - 1);
   while(aSlots[i].p) { if(aSlots[i].p == p) { aSlots[i].p = reinterpret_cast<void*>(1); --aLive; aBytes -= aSlots[i].n; return; } i = (i + 1) & (aCap - 1); }
}
bool allocFails() {
   if(aLib > 0 && !aHarness) {
      int64_t k = aSeen++;
      if(aFailAt >= 0 && k == aFailAt) { aFired = true; return true; }
   }
   return false;
}
void* simAlloc(size_t n) {
   if(!gInRun) { void* p = __real_malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
   if(n > (size_t(1) << 31)) throw std::bad_alloc();
   if(allocFails()) throw std::bad_alloc();
   void* p = __real_malloc(n ? n : 1);
   if(!p) throw std::bad_alloc();
   if(aJunk >= 0) memset(p, aJunk, n);
   if(aTrack && aLib > 0 && !aHarness) slotAdd(p, n);
   return p;
}
void simFree(void* p) { if(p && aLive) slotDel(p); __real_free(p); }
} // namespace
void Alloc::track(bool on) { if(on) { if(aCap) memset(aSlots, 0, aCap * sizeof(Slot)); aLive = aBytes = aUsed = 0; } aTrack = on; }
size_t Alloc::live() { return aLive; }
size_t Alloc::liveBytes() { return aBytes; }
void Alloc::failAt(int64_t k) { aFailAt = k; aSeen = 0; aFired = false; }
int64_t Alloc::seen() { return aSeen; }
bool Alloc::fired() { return aFired; }
void Alloc::junk(int b) { aJunk = b; }
Lib::Lib() { ++aLib; }
Lib::~Lib() { --aLib; }
Harness::Harness() : saved(aHarness) { aHarness = true; }
Harness::~Harness() { aHarness = saved; }

// ------------------------------------------------------------------ tasks
namespace {
struct TaskSys {
   std::mutex m; std::vector<std::condition_variable*> cv; std::vector<int> alive; int cur; size_t nAlive; std::condition_variable done;
};
TaskSys* T = 0;
thread_local int tlTask = -1;
int pickTask() { std::vector<int> r; for(size_t i = 0; i < T->alive.size(); ++i) if(T->alive[i]) r.push_back(static_cast<int>(i)); return r.empty() ? -1 : r[choose(r.size())]; }
uint64_t gSwitches = 0;
}
int currentTask() { return tlTask; }
void yieldPoint() {
   if(!T || tlTask < 0) return;
   Harness h;
   bool myH = h.saved; int myLib = aLib;
   std::unique_lock<std::mutex> l(T->m);
   int nx = pickTask();
   if(nx != tlTask) {
      ++gSwitches; mix(static_cast<uint64_t>(nx) + 1000); mixEv(static_cast<uint64_t>(nx) + 1000);
      T->cur = nx; T->cv[nx]->notify_one();
      while(T->cur != tlTask) T->cv[tlTask]->wait(l);
      aLib = myLib; aHarness = true; (void)myH;
   }
}
void runTasks(std::vector<std::function<void()> > bodies) {
   Harness h;
   TaskSys ts; T = &ts; ts.nAlive = bodies.size(); ts.cur = -1;
   for(size_t i = 0; i < bodies.size(); ++i) { ts.cv.push_back(new std::condition_variable); ts.alive.push_back(1); }
   std::vector<std::thread> th;
   for(size_t i = 0; i < bodies.size(); ++i)
      th.push_back(std::thread([i, &ts, &bodies]() {
         { std::unique_lock<std::mutex> l(ts.m); while(ts.cur != static_cast<int>(i)) ts.cv[i]->wait(l); }
         tlTask = static_cast<int>(i); aLib = 0; aHarness = false;
         bodies[i]();
         { std::unique_lock<std::mutex> l(ts.m); aHarness = true; ts.alive[i] = 0; --ts.nAlive; int nx = pickTask(); ts.cur = nx; if(nx >= 0) ts.cv[nx]->notify_one(); else ts.done.notify_one(); }
      }));
   { std::unique_lock<std::mutex> l(ts.m); int f = pickTask(); ts.cur = f; if(f >= 0) { ts.cv[f]->notify_one(); while(ts.nAlive) ts.done.wait(l); } }
   for(size_t i = 0; i < th.size(); ++i) th[i].join();
   for(size_t i = 0; i < ts.cv.size(); ++i) delete ts.cv[i];
   T = 0; aLib = 0;
}

// ------------------------------------------------------------------ running one tape in a child
namespace {
void sigHandler(int s) {
   if(!S->sig[0]) {
      snprintf(S->sig, sizeof S->sig, "%s:%s", s == SIGPROF || s == SIGALRM ? "hang" : "crash", S->where);
      snprintf(S->msg, sizeof S->msg, "signal %d (%s)", s, strsignal(s));
   }
   S->status = StViolation; _exit(0);
}
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:max_malloc_fill_size=0:print_summary=1:detect_odr_violation=0:alloc_dealloc_mismatch=0"; }
void termHandler() {
   static char hb[sizeof(Harness)]; new(hb) Harness;
   snprintf(S->sig, sizeof S->sig, "crash:%s", S->where);
   const char* what = "unknown";
   static char w[512];
   if(std::exception_ptr e = std::current_exception()) { try { std::rethrow_exception(e); } catch(std::exception& x) { snprintf(w, sizeof w, "%s", x.what()); what = w; } catch(...) {} }
   snprintf(S->msg, sizeof S->msg, "std::terminate called (exception: %s)", what);
   S->status = StViolation; _exit(0);
}

struct Outcome { int status; std::string sig, msg, sample, log; uint64_t hash, evHash, simNs; bool nontrivial; std::vector<uint32_t> tape; };

void childMain(const PropEntry& p) {
   std::set_terminate(termHandler);
   signal(SIGABRT, sigHandler); signal(SIGFPE, sigHandler); signal(SIGILL, sigHandler); signal(SIGBUS, sigHandler); signal(SIGALRM, sigHandler); signal(SIGPROF, sigHandler);
#ifndef __SANITIZE_ADDRESS__
   signal(SIGSEGV, sigHandler);
#endif
   struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 12; setitimer(ITIMER_PROF, &it, 0);
   alarm(240);
   // the run's stderr/stdout are not part of the verdict
   if(!gVerbose) { int dn = ::syscall(SYS_openat, AT_FDCWD, "/dev/null", O_WRONLY); if(dn >= 0) { dup2(dn, 1); dup2(dn, 2); } }
   gInRun = true; for(int i = 0; i < 16; ++i) gLcgs[i] = 1;
   p.run();
   finish();
}

Outcome runOnce(const PropEntry& p) {
   S->status = StRunning; S->where[0] = S->sig[0] = S->msg[0] = S->sample[0] = 0; S->hash = S->evHash = 0xcbf29ce484222325ull; S->simNs = 0; S->nTape = 0; S->nontrivial = 0; S->tapeOverflow = 0; S->nInter = 0; S->logLen = 0; S->log[0] = 0;
   gPos = 0;
   fflush(stdout); fflush(stderr);
   pid_t pid = fork();
   if(pid == 0) { childMain(p); _exit(0); }
   int st = 0;
   while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
   Outcome o;
   o.status = S->status;
   if(WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) == 77) || S->status == StRunning) {
      o.status = StViolation;
      if(!S->sig[0]) snprintf(S->sig, sizeof S->sig, "crash:%s", S->where);
      if(!S->msg[0]) { if(WIFSIGNALED(st)) snprintf(S->msg, sizeof S->msg, "run killed by signal %d", WTERMSIG(st)); else snprintf(S->msg, sizeof S->msg, WIFEXITED(st) && WEXITSTATUS(st) == 77 ? "memory error reported by AddressSanitizer" : "run ended without a verdict (exit status %d)", WEXITSTATUS(st)); }
      S->hash = 0xdead; // the exact instant of a crash is fixed by the tape; partial event hash is kept comparable
      if(WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) o.status = StBroken;
   }
   o.sig = S->sig; o.msg = S->msg; o.sample = S->sample; o.hash = S->hash; o.evHash = S->evHash; o.simNs = S->simNs; o.nontrivial = S->nontrivial; o.log.assign(S->log, S->logLen);
   if(o.sample.empty()) { o.sample = o.log.substr(0, 500); for(size_t i = 0; i < o.sample.size(); ++i) if(o.sample[i] == '\n') { o.sample[i] = ';'; } }
   o.tape.assign(S->tape, S->tape + S->nTape);
   return o;
}
Outcome replayTape(const PropEntry& p, const std::vector<uint32_t>& t) { gReplay = true; gTapeIn = t; Outcome o = runOnce(p); gReplay = false; return o; }

double wall() { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts); return ts.tv_sec + 1e-9 * ts.tv_nsec; }

// Hypothesis-style tape minimisation: keep the violation signature, shorten, then lower values.
std::vector<uint32_t> minimise(const PropEntry& p, std::vector<uint32_t> t, const std::string& sig, double budget, size_t& tried) {
   double end = wall() + budget; tried = 0;
   auto ok = [&](const std::vector<uint32_t>& c) { ++tried; Outcome o = replayTape(p, c); return o.status == StViolation && o.sig == sig; };
   while(!t.empty() && t.back() == 0) t.pop_back();
   bool progress = true;
   while(progress && wall() < end) {
      progress = false;
      // truncate
      for(size_t len = t.size() / 2; len >= 1 && wall() < end; len /= 2) {
         while(t.size() >= len && wall() < end) { std::vector<uint32_t> c(t.begin(), t.end() - len); if(ok(c)) { t = c; progress = true; } else break; }
         if(len == 1) break;
      }
      for(size_t len = std::max<size_t>(1, t.size() / 4); len >= 1 && wall() < end; len /= 2) {
         for(size_t i = 0; i + len <= t.size() && wall() < end;) {
            std::vector<uint32_t> c(t); c.erase(c.begin() + i, c.begin() + i + len);
            if(ok(c)) { t = c; progress = true; continue; }
            c = t; bool nz = false; for(size_t k = i; k < i + len; ++k) { nz = nz || c[k]; c[k] = 0; }
            if(nz && ok(c)) { t = c; progress = true; }
            i += len;
         }
         if(len == 1) break;
      }
      for(size_t i = 0; i < t.size() && wall() < end; ++i) {
         if(!t[i]) continue;
         uint32_t lo = 0, hi = t[i];
         while(lo + 1 < hi && wall() < end) { uint32_t mid = lo + (hi - lo) / 2; std::vector<uint32_t> c(t); c[i] = mid; if(ok(c)) { hi = mid; t = c; progress = true; } else lo = mid; }
      }
      while(!t.empty() && t.back() == 0) t.pop_back();
   }
   return t;
}

std::string esc(const std::string& s) {
   std::string r; for(size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c == '\n') r += "\\n"; else if(c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += c; } return r;
}
void writeReplay(const std::string& path, const char* id, const Outcome& o, const std::vector<uint32_t>& t, uint64_t seed, uint64_t run, size_t tried, size_t orig) {
   std::ofstream f(path.c_str());
   f << "{\"property\":\"" << id << "\",\"signature\":\"" << esc(o.sig) << "\",\"message\":\"" << esc(o.msg) << "\",\n\"seed\":" << seed << ",\"run\":" << run << ",\"hash\":\"" << std::hex << o.hash << std::dec
     << "\",\"original_choices\":" << orig << ",\"minimisation_runs\":" << tried << ",\"case\":\"" << esc(o.sample) << "\",\n\"tape\":[";
   for(size_t i = 0; i < t.size(); ++i) f << (i ? "," : "") << t[i];
   f << "],\n\"trace\":\"" << esc(o.log.substr(0, 20000)) << "\"}\n";
}
std::vector<uint32_t> readTape(const std::string& path) {
   std::ifstream f(path.c_str()); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
   size_t p = s.find("\"tape\":["); std::vector<uint32_t> t; if(p == std::string::npos) return t; p += 8;
   while(p < s.size() && s[p] != ']') { if(isdigit(static_cast<unsigned char>(s[p]))) { char* e; t.push_back(static_cast<uint32_t>(strtoul(s.c_str() + p, &e, 10))); p = e - s.c_str(); } else ++p; }
   return t;
}
uint64_t strHash(const char* s) { uint64_t h = 1469598103934665603ull; for(; *s; ++s) h = (h ^ static_cast<unsigned char>(*s)) * 1099511628211ull; return h; }
} // namespace

int realMain(int argc, char** argv) {
   if(!getenv("SIM_NOASLR")) {
      setenv("SIM_NOASLR", "1", 1);
      if(personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
   }
   std::map<std::string, std::string> o; std::string cmd = argc > 1 ? argv[1] : "";
   for(int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
   S = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
   gThorough = o["tier"] == "thorough";
   const PropEntry* p = 0;
   for(size_t i = 0; i < props().size(); ++i) if(o["prop"] == props()[i].id) p = &props()[i];
   if(!p) { fprintf(stderr, "unknown property %s\n", o["prop"].c_str()); return 3; }
   if(p->warm) p->warm();
   std::set<std::string> known; { std::stringstream ss(o["known"]); std::string t; while(std::getline(ss, t, ',')) if(!t.empty()) known.insert(t); }
   if(cmd == "replay") {
      gVerbose = o.count("verbose");
      std::vector<uint32_t> t = readTape(o["file"]);
      Outcome r = replayTape(*p, t);
      printf("{\"status\":%d,\"signature\":\"%s\",\"message\":\"%s\",\"hash\":\"%llx\"}\n", r.status, esc(r.sig).c_str(), esc(r.msg).c_str(), (unsigned long long)r.hash);
      if(gVerbose) fprintf(stderr, "%s\ncase: %s\n", r.log.c_str(), r.sample.c_str());
      return r.status == StOk ? 0 : r.status == StViolation ? 1 : 3;
   }
   uint64_t seed = strtoull(o["seed"].c_str(), 0, 10), w = strtoull(o["worker"].c_str(), 0, 10), W = strtoull(o["workers"].c_str(), 0, 10), R = strtoull(o["runs"].c_str(), 0, 10);
   if(!W) W = 1;
   auto seedRun = [&](uint64_t i) { uint64_t x = seed * 0x9e3779b97f4a7c15ull ^ strHash(p->id) ^ (i * 0xd1342543de82ef95ull + 1); gRng[0] = splitmix(x); gRng[1] = splitmix(x) | 1; };
   if(cmd == "one") { // run a single run number, print its verdict and hash
      uint64_t i = strtoull(o["run"].c_str(), 0, 10); gVerbose = o.count("verbose"); seedRun(i); Outcome r = runOnce(*p);
      printf("%llu %d %llx %s %s\n", (unsigned long long)i, r.status, (unsigned long long)r.hash, r.sig.c_str(), r.msg.c_str());
      if(gVerbose) fprintf(stderr, "%s\ncase: %s\n", r.log.c_str(), r.sample.c_str());
      return 0;
   }
   if(cmd == "hashes") { for(uint64_t i = w; i < R; i += W) { seedRun(i); Outcome r = runOnce(*p); printf("%llu %d %llx %s\n", (unsigned long long)i, r.status, (unsigned long long)r.hash, r.sig.c_str()); } return 0; }
   if(cmd != "explore") { fprintf(stderr, "usage: explore|replay|one|hashes --prop P ...\n"); return 3; }
   double budget = atof(o["budget"].c_str()), t0 = wall(), minBudget = o.count("minimise") ? atof(o["minimise"].c_str()) : 40;
   bool keepGoing = o.count("keepgoing");
   uint64_t runs = 0, nt = 0, broken = 0; double simNs = 0; std::set<uint64_t> traces, inter; std::vector<std::string> samples; std::map<std::string, uint64_t> knownHits;
   std::string vio; std::map<std::string, uint64_t> sigs;
   for(uint64_t i = w; i < R && wall() - t0 < budget; i += W) {
      seedRun(i);
      Outcome r = runOnce(*p);
      ++runs; if(r.nontrivial && traces.insert(r.evHash).second) ++nt; simNs += r.simNs;
      for(uint64_t k = 0; k < S->nInter && inter.size() < 2000000; ++k) inter.insert(S->inter[k]);
      if(samples.size() < 4 && !r.sample.empty() && r.nontrivial) samples.push_back(fmt("run %llu: ", (unsigned long long)i) + r.sample);
      if(r.status == StBroken) { ++broken; fprintf(stderr, "broken run %llu\n", (unsigned long long)i); continue; }
      if(r.status == StViolation) {
         if(known.count(r.sig)) { ++knownHits[r.sig]; continue; }
         if(keepGoing) { if(++sigs[r.sig] <= 2) fprintf(stderr, "run %llu [%s] %s\n   case: %s\n", (unsigned long long)i, r.sig.c_str(), r.msg.c_str(), r.sample.c_str()); continue; }
         size_t tried = 0, orig = r.tape.size();
         Outcome again = replayTape(*p, r.tape);
         std::string path = o["replaydir"] + "/" + p->id + "-w" + o["worker"] + ".json";
         if(again.status != StViolation || again.sig != r.sig || again.hash != r.hash) {
            fprintf(stderr, "not deterministic: run %llu [%s] %llx vs [%s] %llx\n", (unsigned long long)i, r.sig.c_str(), (unsigned long long)r.hash, again.sig.c_str(), (unsigned long long)again.hash);
            vio = "NONDET"; writeReplay(path, p->id, r, r.tape, seed, i, 0, orig); break;
         }
         std::vector<uint32_t> t = minimise(*p, r.tape, r.sig, minBudget, tried);
         Outcome m = replayTape(*p, t);
         writeReplay(path, p->id, m, t, seed, i, tried, orig);
         vio = path; fprintf(stderr, "run %llu [%s] %s\n   case: %s\n", (unsigned long long)i, m.sig.c_str(), m.msg.c_str(), m.sample.c_str());
         break;
      }
   }
   if(keepGoing) for(auto& kv : sigs) fprintf(stderr, "TOTAL %s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
   std::ofstream f(o["out"].c_str());
   f << "{\"runs\":" << runs << ",\"distinct_nontrivial\":" << nt << ",\"sim_ns\":" << static_cast<uint64_t>(simNs) << ",\"wall_s\":" << wall() - t0 << ",\"broken\":" << broken << ",\"violation\":\"" << esc(vio) << "\",\"counters\":{";
   bool first = true; for(size_t k = 0; k < NCOUNT; ++k) if(S->counters[k].name[0]) { f << (first ? "" : ",") << "\"" << esc(S->counters[k].name) << "\":" << S->counters[k].n; first = false; }
   f << "},\"known\":{"; first = true; for(auto& kv : knownHits) { f << (first ? "" : ",") << "\"" << esc(kv.first) << "\":" << kv.second; first = false; }
   f << "},\"samples\":["; for(size_t k = 0; k < samples.size(); ++k) f << (k ? "," : "") << "\"" << esc(samples[k]) << "\"";
   f << "],\"trace_hashes\":["; first = true; size_t lim = 0; for(uint64_t h : traces) { if(++lim > 200000) break; f << (first ? "" : ",") << h; first = false; }
   f << "],\"interleavings\":["; first = true; lim = 0; for(uint64_t h : inter) { if(++lim > 200000) break; f << (first ? "" : ",") << h; first = false; }
   f << "]}\n";
   return vio.empty() ? 0 : 1;
}
} // namespace sim

// ==================================================================== seams
extern "C" {
int rand(void) { if(sim::gInRun) return sim::simRand(); uint32_t& l = sim::gLcgs[0]; return static_cast<int>(l = l * 1664525u + 1013904223u) & 0x7fffffff; }
void srand(unsigned s) { sim::randReset(s); }
static int simClock(struct timespec* ts) { if(sim::onClockRead) sim::onClockRead(); int64_t t = sim::nowNs(); ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000; return 0; }
int clock_gettime(clockid_t id, struct timespec* ts) { if(sim::clockActive) return simClock(ts); return syscall(SYS_clock_gettime, id, ts); }
int gettimeofday(struct timeval* tv, void*) { struct timespec ts; if(sim::gInRun) { if(sim::clockActive) simClock(&ts); else { ts.tv_sec = 1700000000 + sim::nowNs() / 1000000000; ts.tv_nsec = 0; } } else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
time_t time(time_t* t) { struct timespec ts; if(sim::gInRun) { ts.tv_sec = 1700000000 + sim::nowNs() / 1000000000; } else syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); if(t) *t = ts.tv_sec; return ts.tv_sec; }
void* __wrap_malloc(size_t n) { if(sim::gInRun && sim::allocFails()) return 0; void* p = __real_malloc(n); if(p && sim::gInRun && sim::aJunk >= 0) memset(p, sim::aJunk, n); if(p && sim::aTrack && sim::aLib > 0 && !sim::aHarness) sim::slotAdd(p, n); return p; }
void __wrap_free(void* p) { if(p && sim::aLive) sim::slotDel(p); __real_free(p); }
}
void* operator new(size_t n) { return sim::simAlloc(n); }
void* operator new[](size_t n) { return sim::simAlloc(n); }
void operator delete(void* p) noexcept { sim::simFree(p); }
void operator delete[](void* p) noexcept { sim::simFree(p); }
void operator delete(void* p, size_t) noexcept { sim::simFree(p); }
void operator delete[](void* p, size_t) noexcept { sim::simFree(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return sim::simAlloc(n); } catch(...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return sim::simAlloc(n); } catch(...) { return 0; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::simFree(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::simFree(p); }

int main(int argc, char** argv) { return sim::realMain(argc, argv); }
