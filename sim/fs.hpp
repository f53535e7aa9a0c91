// Simulated file system for paths below /sim/ (what libhdf5, fstream and stdio see).
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace simfs {
enum Kind { KOpen, KWrite, KRead, KTrunc, KClose, KStat, KLock, KKinds };
extern const char* kindName[KKinds];
enum Mode { MNone, MSingle, MPersistent, MHeal };   // MHeal: from `at` on for `len` operations
enum Effect { EErr, EShort, EIntr };                 // error code, partial transfer, EINTR
struct Plan { Mode mode; unsigned kinds; int64_t at, len; int err; Effect effect; Plan() : mode(MNone), kinds(0), at(0), len(1), err(5), effect(EErr) {} };
void plan(const Plan& p);             // also resets the operation counters
void heal();                          // no more faults; keeps `fired`
void capacity(int64_t bytes);         // total bytes the simulated disk can hold (-1 unlimited)
int64_t seen(unsigned kinds);         // operations of these kinds seen since plan()
int64_t fired();                      // faults injected since plan()
bool hard();                          // an error-returning (not merely short/EINTR) fault fired since plan()

typedef std::vector<unsigned char> Bytes;
bool exists(const std::string& path);
Bytes get(const std::string& path);
void put(const std::string& path, const Bytes& b);   // new inode
void remove(const std::string& path);
size_t openFds();

struct Op { int what; uint64_t ino; std::string path; uint64_t off; Bytes data; }; // what: 0 create, 1 write, 2 truncate(off), 3 link(path->ino)
void record(bool on);                 // start (clears) / stop recording mutations
const std::vector<Op>& ops();
// file contents of `path` after the first n recorded operations, op n applied partially (keep bytes) if keep>=0
bool image(const std::string& path, size_t n, int64_t keep, Bytes& out);
}
