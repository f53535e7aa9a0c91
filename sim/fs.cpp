#include "fs.hpp"
#include "sim.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace simfs {
const char* kindName[KKinds] = { "open", "write", "read", "ftruncate", "close", "stat", "lock" };
struct Inode { uint64_t ino; Bytes data; };
typedef std::shared_ptr<Inode> InodeP;
struct Fd { InodeP f; int64_t pos; int flags; };
static std::map<std::string, InodeP>& dir() { static std::map<std::string, InodeP> d; return d; }
static std::map<int, Fd>& fds() { static std::map<int, Fd> d; return d; }
static int gNextFd = 100000;
static uint64_t gNextIno = 1000;
static Plan gPlan;
static int64_t gSeen = 0, gFired = 0, gKind[KKinds], gCap = -1;
static bool gHard = false, gRec = false;
static std::map<std::string, Bytes>* gBase = 0; // files at record(true)
static std::map<std::string, uint64_t>* gBaseIno = 0;
static std::vector<Op>& opLog() { static std::vector<Op> o; return o; }

void plan(const Plan& p) { gPlan = p; gSeen = gFired = 0; gHard = false; memset(gKind, 0, sizeof gKind); }
void heal() { gPlan = Plan(); gCap = -1; }
void capacity(int64_t b) { gCap = b; }
int64_t seen(unsigned kinds) { int64_t n = 0; for(int k = 0; k < KKinds; ++k) if(kinds & (1u << k)) n += gKind[k]; return n; }
int64_t fired() { return gFired; }
bool hard() { return gHard; }
bool exists(const std::string& p) { return dir().count(p) != 0; }
Bytes get(const std::string& p) { return dir().at(p)->data; }
void put(const std::string& p, const Bytes& b) { InodeP i(new Inode); i->ino = gNextIno++; i->data = b; dir()[p] = i; }
void remove(const std::string& p) { dir().erase(p); }
size_t openFds() { return fds().size(); }
void record(bool on) {
   gRec = on;
   if(on) { opLog().clear(); delete gBase; delete gBaseIno; gBase = new std::map<std::string, Bytes>; gBaseIno = new std::map<std::string, uint64_t>;
      for(auto& kv : dir()) { (*gBase)[kv.first] = kv.second->data; (*gBaseIno)[kv.first] = kv.second->ino; } }
}
const std::vector<Op>& ops() { return opLog(); }
static void log(int what, uint64_t ino, const std::string& path, uint64_t off, const void* d, size_t n) {
   if(!gRec) return;
   Op o; o.what = what; o.ino = ino; o.path = path; o.off = off; o.data.assign(static_cast<const unsigned char*>(d), static_cast<const unsigned char*>(d) + n); opLog().push_back(o);
}
static void wr(Bytes& b, uint64_t off, const unsigned char* d, size_t n) { if(!n) return; if(b.size() < off + n) b.resize(off + n); memcpy(&b[off], d, n); }
bool image(const std::string& path, size_t n, int64_t keep, Bytes& out) {
   std::map<uint64_t, Bytes> in; std::map<std::string, uint64_t> names(*gBaseIno);
   for(auto& kv : *gBase) in[(*gBaseIno)[kv.first]] = kv.second;
   for(size_t i = 0; i < opLog().size() && i <= n; ++i) {
      const Op& o = opLog()[i];
      if(i == n) { if(keep >= 0 && o.what == 1) wr(in[o.ino], o.off, o.data.data(), std::min<size_t>(keep, o.data.size())); break; }
      if(o.what == 0) { in[o.ino]; names[o.path] = o.ino; }
      else if(o.what == 1) wr(in[o.ino], o.off, o.data.data(), o.data.size());
      else if(o.what == 2) in[o.ino].resize(o.off);
   }
   if(!names.count(path)) return false;
   out = in[names[path]]; return true;
}
// returns true if a fault fires for this operation; *n may be shortened; err set
static bool fault(Kind k, int& err, size_t* n) {
   ++gKind[k];
   if(gPlan.mode == MNone || !(gPlan.kinds & (1u << k))) return false;
   int64_t i = gSeen++;
   bool f = gPlan.mode == MSingle ? i == gPlan.at : gPlan.mode == MPersistent ? i >= gPlan.at : i >= gPlan.at && i < gPlan.at + gPlan.len;
   if(!f) return false;
   Effect e = gPlan.effect;
   if(e == EShort && (!n || *n < 2)) return false;
   if(e == EIntr && (k != KRead && k != KWrite && k != KTrunc)) return false;
   if(e == EIntr && gPlan.mode == MPersistent) return false; // an endless signal storm is not a disk fault
   ++gFired;
   char nm[64]; snprintf(nm, sizeof nm, "fault.%s.%s", kindName[k], e == EShort ? "short" : e == EIntr ? "EINTR" : gPlan.err == EIO ? "EIO" : gPlan.err == ENOSPC ? "ENOSPC" : gPlan.err == EMFILE ? "EMFILE" : gPlan.err == EACCES ? "EACCES" : "other");
   sim::count(nm);
   sim::ev("  disk fault %s at op %lld", nm, (long long)i);
   if(e == EShort) { *n = 1 + (*n - 1) / 2; return false; }
   err = e == EIntr ? EINTR : gPlan.err; if(e == EErr || k == KTrunc) gHard = true;
   return true;
}
static int64_t usedBytes() { int64_t s = 0; for(auto& kv : dir()) s += kv.second->data.size(); return s; }

static bool mine(const char* p) { return p && !strncmp(p, "/sim/", 5); }
static bool isFd(int fd) { return !fds().empty() && fds().count(fd); }

static int doOpen(const char* p, int flags, int useFd) {
   sim::Harness h; int err = 0;
   if(fault(KOpen, err, 0)) { errno = err; return -1; }
   bool ex = exists(p);
   if(!ex && !(flags & O_CREAT)) { errno = ENOENT; return -1; }
   if(ex && (flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
   if(!ex) { InodeP i(new Inode); i->ino = gNextIno++; dir()[p] = i; log(0, i->ino, p, 0, "", 0); }
   InodeP f = dir()[p];
   if((flags & O_TRUNC) && !f->data.empty()) { f->data.clear(); log(2, f->ino, p, 0, "", 0); }
   Fd d; d.f = f; d.pos = 0; d.flags = flags;
   int fd = useFd >= 0 ? useFd : gNextFd++;
   fds()[fd] = d; return fd;
}
static int doClose(int fd) {
   sim::Harness h; int err = 0;
   bool bad = fault(KClose, err, 0);
   fds().erase(fd);                 // as on Linux, the descriptor is released even if close reports an error
   if(bad) { errno = err; return -1; }
   return 0;
}
static ssize_t doWrite(int fd, const void* b, size_t n, int64_t off, bool seq) {
   sim::Harness h; int err = 0;
   Fd& d = fds()[fd];
   if(seq) off = (d.flags & O_APPEND) ? d.f->data.size() : d.pos;
   if(fault(KWrite, err, &n)) { errno = err; return -1; }
   if(gCap >= 0) {
      int64_t grow = static_cast<int64_t>(off + n) - static_cast<int64_t>(d.f->data.size());
      if(grow > 0) {
         int64_t room = gCap - usedBytes(); if(room < 0) room = 0;
         if(grow > room) {
            int64_t m = static_cast<int64_t>(n) - (grow - room);
            ++gFired; gHard = true; sim::count("fault.disk-full");
            if(m <= 0) { errno = ENOSPC; sim::ev("  disk full"); return -1; }
            n = m;
         }
      }
   }
   wr(d.f->data, off, static_cast<const unsigned char*>(b), n);
   log(1, d.f->ino, "", off, b, n);
   if(seq) d.pos = off + n;
   return n;
}
static ssize_t doRead(int fd, void* b, size_t n, int64_t off, bool seq) {
   sim::Harness h; int err = 0;
   Fd& d = fds()[fd];
   if(seq) off = d.pos;
   if(fault(KRead, err, &n)) { errno = err; return -1; }
   if(off >= static_cast<int64_t>(d.f->data.size())) return 0;
   size_t m = std::min<size_t>(n, d.f->data.size() - off);
   memcpy(b, &d.f->data[off], m);
   if(seq) d.pos += m;
   return m;
}
static int fillStat(const InodeP& f, struct stat* st) { memset(st, 0, sizeof *st); st->st_dev = 0x51; st->st_ino = f->ino; st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = f->data.size(); st->st_blksize = 4096; return 0; }
static int doStat(const char* p, struct stat* st) { sim::Harness h; int err = 0; if(fault(KStat, err, 0)) { errno = err; return -1; } if(!exists(p)) { errno = ENOENT; return -1; } return fillStat(dir()[p], st); }
static int doFstat(int fd, struct stat* st) { sim::Harness h; int err = 0; if(fault(KStat, err, 0)) { errno = err; return -1; } return fillStat(fds()[fd].f, st); }
static int doTrunc(int fd, int64_t len) {
   sim::Harness h; int err = 0;
   if(fault(KTrunc, err, 0)) { errno = err; return -1; }
   Fd& d = fds()[fd];
   if(gCap >= 0 && len > static_cast<int64_t>(d.f->data.size()) && len - static_cast<int64_t>(d.f->data.size()) + usedBytes() > gCap) { ++gFired; gHard = true; sim::count("fault.disk-full"); errno = ENOSPC; return -1; }
   if(len != static_cast<int64_t>(d.f->data.size())) { d.f->data.resize(len); log(2, d.f->ino, "", len, "", 0); }
   return 0;
}
template<class F> static F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
} // namespace simfs

using namespace simfs;
extern "C" {
int open(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if(mine(p)) return doOpen(p, flags, -1); return syscall(SYS_openat, AT_FDCWD, p, flags, mode); }
int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int mode = (flags & O_CREAT) ? va_arg(a, int) : 0; va_end(a); if(mine(p)) return doOpen(p, flags, -1); return syscall(SYS_openat, AT_FDCWD, p, flags, mode); }
int close(int fd) { if(isFd(fd)) return doClose(fd); return syscall(SYS_close, fd); }
ssize_t write(int fd, const void* b, size_t n) { if(isFd(fd)) return doWrite(fd, b, n, 0, true); return syscall(SYS_write, fd, b, n); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { if(isFd(fd)) return doWrite(fd, b, n, o, false); return syscall(SYS_pwrite64, fd, b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { return pwrite(fd, b, n, o); }
ssize_t read(int fd, void* b, size_t n) { if(isFd(fd)) return doRead(fd, b, n, 0, true); return syscall(SYS_read, fd, b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { if(isFd(fd)) return doRead(fd, b, n, o, false); return syscall(SYS_pread64, fd, b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { return pread(fd, b, n, o); }
ssize_t writev(int fd, const struct iovec* v, int c) {
   if(!isFd(fd)) return syscall(SYS_writev, fd, v, c);
   sim::Harness h; Bytes all; for(int i = 0; i < c; ++i) all.insert(all.end(), static_cast<const unsigned char*>(v[i].iov_base), static_cast<const unsigned char*>(v[i].iov_base) + v[i].iov_len);
   return doWrite(fd, all.data(), all.size(), 0, true);
}
off_t lseek(int fd, off_t o, int w) { if(isFd(fd)) { Fd& d = fds()[fd]; int64_t b = w == SEEK_SET ? 0 : w == SEEK_CUR ? d.pos : d.f->data.size(); if(b + o < 0) { errno = EINVAL; return -1; } d.pos = b + o; return d.pos; } return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) { if(isFd(fd)) return doTrunc(fd, n); return syscall(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int fsync(int fd) { if(isFd(fd)) return 0; return syscall(SYS_fsync, fd); }
int fstat(int fd, struct stat* st) { if(isFd(fd)) return doFstat(fd, st); return syscall(SYS_fstat, fd, st); }
int fstat64(int fd, struct stat64* st) { return fstat(fd, reinterpret_cast<struct stat*>(st)); }
int stat(const char* p, struct stat* st) { if(mine(p)) return doStat(p, st); return syscall(SYS_stat, p, st); }
int stat64(const char* p, struct stat64* st) { return stat(p, reinterpret_cast<struct stat*>(st)); }
int lstat(const char* p, struct stat* st) { if(mine(p)) return doStat(p, st); return syscall(SYS_lstat, p, st); }
int access(const char* p, int m) { if(mine(p)) { if(exists(p)) return 0; errno = ENOENT; return -1; } return syscall(SYS_access, p, m); }
int unlink(const char* p) { if(mine(p)) { if(!exists(p)) { errno = ENOENT; return -1; } simfs::remove(p); return 0; } return syscall(SYS_unlink, p); }
int flock(int fd, int op) { if(isFd(fd)) { sim::Harness h; int err = 0; if(fault(KLock, err, 0)) { errno = err; return -1; } return 0; } return syscall(SYS_flock, fd, op); }
char* realpath(const char* p, char* r) { if(mine(p)) { if(!r) r = static_cast<char*>(malloc(4096)); strcpy(r, p); return r; } static char* (*f)(const char*, char*) = real<char* (*)(const char*, char*)>("realpath"); return f(p, r); }
static FILE* simFopen(const char* p, const char* m) {
   int fl = strchr(m, '+') ? O_RDWR : m[0] == 'r' ? O_RDONLY : O_WRONLY;
   if(m[0] == 'w') fl |= O_CREAT | O_TRUNC;
   if(m[0] == 'a') fl |= O_CREAT | O_APPEND;
   int fd = syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR);
   if(fd < 0) return 0;
   if(doOpen(p, fl, fd) < 0) { int e = errno; syscall(SYS_close, fd); errno = e; return 0; }
   return fdopen(fd, m);
}
FILE* fopen(const char* p, const char* m) { if(mine(p)) return simFopen(p, m); static FILE* (*f)(const char*, const char*) = real<FILE* (*)(const char*, const char*)>("fopen"); return f(p, m); }
FILE* fopen64(const char* p, const char* m) { if(mine(p)) return simFopen(p, m); static FILE* (*f)(const char*, const char*) = real<FILE* (*)(const char*, const char*)>("fopen64"); return f(p, m); }
int fclose(FILE* f) { static int (*g)(FILE*) = real<int (*)(FILE*)>("fclose"); int fd = fileno(f); if(isFd(fd)) { int r = doClose(fd), e = errno; g(f); errno = e; return r; } return g(f); }
}
