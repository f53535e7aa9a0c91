// P03: the marray HDF5 array store refines a map (group, name) -> array under disk faults.
#include "fs.hpp"
#include "h5ledger.hpp"
#include "sim.hpp"
#include <cerrno>
#include <algorithm>
#include <map>
#include <memory>
#include <opengm/datastructures/marray/marray.hxx>
#include <opengm/datastructures/marray/marray_hdf5.hxx>
using namespace sim;
namespace mh = marray::hdf5;
namespace {
enum Type { TDouble, TFloat, TInt, TUChar, TLong, TTypes };
const char* typeName[] = { "double", "float", "int", "uchar", "long" };
struct Arr { Type type; std::vector<size_t> shape; bool last; std::vector<double> data; std::vector<bool> known; bool exists, maybe; // maybe: may or may not exist, nothing else known
   Arr() : type(TDouble), last(true), exists(false), maybe(false) {} };
typedef std::map<std::string, Arr> Store; // key: "group/name" ("" group for root)
size_t total(const std::vector<size_t>& s) { size_t n = 1; for(size_t i = 0; i < s.size(); ++i) n *= s[i]; return n; }
size_t off(const std::vector<size_t>& c, const std::vector<size_t>& s) { size_t o = 0, st = 1; for(size_t i = 0; i < s.size(); ++i) { o += c[i] * st; st *= s[i]; } return o; }
bool nextC(std::vector<size_t>& c, const std::vector<size_t>& s) { for(size_t i = 0; i < c.size(); ++i) { if(++c[i] < s[i]) return true; c[i] = 0; } return false; }
double gVal = 0;
double fresh() { gVal = gVal >= 249 ? 1 : gVal + 1; return gVal; }

struct World {
   Store st; std::string path; hid_t file; bool open, ro; std::map<std::string, hid_t> groups; std::vector<std::string> groupNames; bool dirtyFault;
   std::string cur; hid_t at; // current group
} W;
std::string key(const std::string& n) { return W.cur + "/" + n; }

template<class F> bool attempt(const char* what, F f, std::string& err) {
   // place a fault inside this operation in a quarter of the cases
   bool faulty = choose(4) == 3; where(what);
   if(faulty) {
      simfs::Plan p; unsigned sets[] = { 1u << simfs::KWrite, 1u << simfs::KRead, (1u << simfs::KRead) | (1u << simfs::KWrite), 1u << simfs::KOpen, 1u << simfs::KClose, 1u << simfs::KTrunc, (1u << simfs::KKinds) - 1 };
      p.kinds = sets[choose(7)]; p.at = static_cast<int64_t>(choose(6)); p.mode = choose(2) ? simfs::MPersistent : simfs::MSingle; unsigned e = choose(5); p.effect = e < 3 ? simfs::EErr : e == 3 ? simfs::EShort : simfs::EIntr; p.err = choose(2) ? ENOSPC : EIO;
      if(choose(5) == 4) { simfs::plan(simfs::Plan()); simfs::capacity(static_cast<int64_t>(choose(6000))); } else simfs::plan(p);
   } else simfs::plan(simfs::Plan());
   bool ok = true;
   try { f(); } catch(std::exception& x) { ok = false; err = x.what(); } catch(...) { ok = false; err = "non-standard exception"; }
   bool fired = simfs::fired() > 0, hard = simfs::hard(); simfs::heal();
   if(fired) { nontrivial(); count(ok ? "op-ok-despite-fault" : "op-rejected"); }
   if(hard) W.dirtyFault = true;
   ev("%s -> %s%s", what, ok ? "ok" : "threw", fired ? " (fault fired)" : "");
   std::string lk; size_t n = h5l::leaked(lk), expect = (W.open ? 1 : 0) + W.groups.size();
   (void)n; (void)expect;
   return ok;
}
void checkHandles(const char* what) {
   std::string lk; size_t n = h5l::leaked(lk), expect = (W.open ? 1 : 0) + W.groups.size();
   if(n != expect) violation(std::string("handle-leak:") + what, "after %s %zu HDF5 handles are open, expected %zu: %s", what, n, expect, lk.c_str());
}
template<class T> marray::Marray<T> make(const Arr& a) {
   marray::Marray<T> m(a.shape.begin(), a.shape.end(), T(0), a.last ? marray::LastMajorOrder : marray::FirstMajorOrder);
   std::vector<size_t> c(a.shape.size(), 0); do m(c.begin()) = static_cast<T>(a.data[off(c, a.shape)]); while(nextC(c, a.shape));
   return m;
}
Arr randomArr(Type t) {
   Arr a; a.type = t; size_t d = 1 + choose(3); for(size_t i = 0; i < d; ++i) a.shape.push_back(1 + choose(d == 1 ? 9 : 4)); a.last = choose(2);
   if(coin(1, 12)) { a.shape.clear(); a.shape.push_back(600 + choose(900)); }
   size_t n = total(a.shape); for(size_t i = 0; i < n; ++i) a.data.push_back(fresh()); a.known.assign(n, true); a.exists = true; return a;
}
template<class T> void compareArr(const char* what, const marray::Marray<T>& m, const std::vector<size_t>& shape, const Arr& a, const std::vector<size_t>& base) {
   if(m.dimension() != shape.size()) violation("wrong-shape", "%s: dimension %zu, expected %zu", what, size_t(m.dimension()), shape.size());
   for(size_t i = 0; i < shape.size(); ++i) if(m.shape(i) != shape[i]) violation("wrong-shape", "%s: shape(%zu)=%zu, expected %zu", what, i, size_t(m.shape(i)), shape[i]);
   if((m.coordinateOrder() == marray::LastMajorOrder) != a.last) violation("wrong-order", "%s: coordinate order changed", what);
   std::vector<size_t> c(shape.size(), 0);
   do { std::vector<size_t> g(c); for(size_t i = 0; i < g.size(); ++i) g[i] += base[i]; size_t o = off(g, a.shape);
      if(a.known[o]) { double got = double(m(c.begin())); hashNum(got); if(got != a.data[o]) violation("wrong-value", "%s: element %zu is %g, expected %g", what, o, got, a.data[o]); } } while(nextC(c, shape));
}
template<class T> void opSave(Type t, const std::string& n, bool asVec, bool asView) {
   Arr a = randomArr(t); std::string e;
   Arr& old = W.st[key(n)];
   bool ok;
   if(asVec) { a.shape.assign(1, a.data.size()); a.last = marray::Vector<T>().coordinateOrder() == marray::LastMajorOrder; std::vector<T> v; for(size_t i = 0; i < a.data.size(); ++i) v.push_back(T(a.data[i])); ok = attempt("save-vector", [&]() { mh::save(W.at, n, v); }, e); }
   else if(asView) {
      Arr big = a; for(size_t i = 0; i < big.shape.size(); ++i) big.shape[i] += choose(3); big.data.assign(total(big.shape), 7);
      std::vector<size_t> base(a.shape.size()); for(size_t i = 0; i < base.size(); ++i) base[i] = choose(big.shape[i] - a.shape[i] + 1);
      std::vector<size_t> c(a.shape.size(), 0); do { std::vector<size_t> g(c); for(size_t i = 0; i < g.size(); ++i) g[i] += base[i]; big.data[off(g, big.shape)] = a.data[off(c, a.shape)]; } while(nextC(c, a.shape));
      marray::Marray<T> m = make<T>(big); marray::View<T> v = m.view(base.begin(), a.shape.begin());
      ok = attempt("save-view", [&]() { mh::save(W.at, n, v); }, e);
   }
   else { marray::Marray<T> m = make<T>(a); ok = attempt("save-array", [&]() { mh::save(W.at, n, m); }, e); }
   bool hard = simfs::hard();
   if(ok) { if(old.exists || W.ro) violation("save-accepted", "saving over an existing array or into a read-only file was acknowledged"); old = a; count("arrays-saved"); }
   else if(!old.exists && !W.ro && !old.maybe && !hard && !W.dirtyFault) violation("save-spurious-failure", "save failed without a fault: %s", e.c_str());
   else if(!old.exists && hard) old.maybe = true;
   checkHandles("save");
}
template<class T> void opCreateSlab(Type t, const std::string& n) {
   Arr a = randomArr(t); std::string e; Arr& old = W.st[key(n)];
   bool ok = attempt("create", [&]() { mh::create<T>(W.at, n, a.shape.begin(), a.shape.end(), a.last ? marray::LastMajorOrder : marray::FirstMajorOrder); }, e);
   bool hard = simfs::hard();
   if(ok) { if(old.exists || W.ro) violation("create-accepted", "creating an existing array or in a read-only file was acknowledged"); a.data.assign(a.data.size(), 0); a.known.assign(a.data.size(), false); old = a; }
   else if(!old.exists && !W.ro && !old.maybe && !hard && !W.dirtyFault) violation("create-spurious-failure", "create failed without a fault: %s", e.c_str());
   else if(!old.exists && hard) old.maybe = true;
   checkHandles("create");
}
template<class T> void opSaveSlab(Type t, const std::string& n) {
   Arr& a = W.st[key(n)]; if(!a.exists || a.type != t) return;
   std::vector<size_t> base, sh; bool outside = choose(10) == 9; for(size_t i = 0; i < a.shape.size(); ++i) { base.push_back(choose(a.shape[i])); sh.push_back(1 + choose(a.shape[i] - base[i])); }
   if(outside) { { size_t q = choose(base.size()); base[q] += a.shape[q]; }; }
   bool wrongOrder = choose(8) == 7;
   Arr s; s.shape = sh; s.last = wrongOrder ? !a.last : a.last; for(size_t i = 0; i < total(sh); ++i) s.data.push_back(fresh());
   marray::Marray<T> m = make<T>(s); std::string e;
   bool ok = attempt("save-slab", [&]() { mh::saveHyperslab(W.at, n, base.begin(), base.end(), sh.begin(), m); }, e);
   bool hard = simfs::hard();
   if(ok) { if(wrongOrder || outside || W.ro) violation("slab-accepted", "saving a hyperslab with wrong order, outside the array or in a read-only file was acknowledged");
      std::vector<size_t> c(sh.size(), 0); do { std::vector<size_t> g(c); for(size_t i = 0; i < g.size(); ++i) g[i] += base[i]; size_t o = off(g, a.shape); a.data[o] = s.data[off(c, sh)]; a.known[o] = true; } while(nextC(c, sh)); count("slabs-saved"); }
   else {
      if(!wrongOrder && !outside && !W.ro && !hard && !W.dirtyFault) violation("slab-spurious-failure", "saving a hyperslab failed without a fault: %s", e.c_str());
      if(!outside && !wrongOrder && !W.ro) { std::vector<size_t> c(sh.size(), 0); do { std::vector<size_t> g(c); for(size_t i = 0; i < g.size(); ++i) g[i] += base[i]; a.known[off(g, a.shape)] = false; } while(nextC(c, sh)); } }
   checkHandles("saveHyperslab");
}
template<class T> void opLoad(Type t, const std::string& n, unsigned how) {
   Arr& a = W.st[key(n)]; std::string e; bool right = a.exists && a.type == t;
   if(how == 0) { marray::Marray<T> m; bool ok = attempt("load", [&]() { mh::load(W.at, n, m); }, e); bool hard = simfs::hard();
      if(ok) { if(!a.exists && !a.maybe) violation("load-phantom", "loading an array that was never saved succeeded"); if(a.exists && a.type != t) violation("load-wrong-type", "loading %s as %s succeeded", typeName[a.type], typeName[t]); if(right) { compareArr("load", m, a.shape, a, std::vector<size_t>(a.shape.size(), 0)); count("arrays-verified"); } }
      else if(right && !hard && !W.dirtyFault) violation("acked-array-unreadable", "an acknowledged array cannot be loaded: %s", e.c_str()); }
   else if(how == 1) { if(!a.exists) return; std::vector<size_t> base, sh; bool outside = choose(8) == 7; for(size_t i = 0; i < a.shape.size(); ++i) { base.push_back(choose(a.shape[i])); sh.push_back(1 + choose(a.shape[i] - base[i])); } if(outside) { size_t q = choose(base.size()); base[q] += a.shape[q]; };
      marray::Marray<T> m; bool ok = attempt("load-slab", [&]() { mh::loadHyperslab(W.at, n, base.begin(), base.end(), sh.begin(), m); }, e); bool hard = simfs::hard();
      if(ok) { if(outside) violation("load-slab-outside", "loading a hyperslab outside the array succeeded"); if(!right) violation("load-wrong-type", "loading a hyperslab of %s as %s succeeded", typeName[a.type], typeName[t]); compareArr("loadHyperslab", m, sh, a, base); count("slabs-verified"); }
      else if(right && !outside && !hard && !W.dirtyFault) violation("acked-slab-unreadable", "hyperslab of an acknowledged array cannot be loaded: %s", e.c_str()); }
   else if(how == 2) { marray::Vector<T> s; bool ok = attempt("load-shape", [&]() { mh::loadShape(W.at, n, s); }, e); bool hard = simfs::hard();
      if(ok && a.exists) { if(s.size() != a.shape.size()) violation("wrong-shape", "loadShape: %zu dimensions, expected %zu", size_t(s.size()), a.shape.size()); for(size_t i = 0; i < a.shape.size(); ++i) if(s[i] != T(a.shape[i])) violation("wrong-shape", "loadShape: shape[%zu]=%g, expected %zu", i, double(s[i]), a.shape[i]); }
      else if(!ok && a.exists && !hard && !W.dirtyFault) violation("acked-array-unreadable", "shape of an acknowledged array cannot be loaded: %s", e.c_str()); }
   else { if(!right || a.shape.size() != 1) return; std::vector<T> v; bool ok = attempt("load-vec", [&]() { mh::loadVec(W.at, n, v); }, e); bool hard = simfs::hard();
      if(ok) { if(v.size() != a.shape[0]) violation("wrong-shape", "loadVec: %zu elements, expected %zu", v.size(), a.shape[0]); for(size_t i = 0; i < v.size(); ++i) if(a.known[i] && double(v[i]) != a.data[i]) violation("wrong-value", "loadVec: element %zu is %g, expected %g", i, double(v[i]), a.data[i]); }
      else if(!hard && !W.dirtyFault) violation("acked-array-unreadable", "an acknowledged array cannot be loaded: %s", e.c_str()); }
   checkHandles(how == 0 ? "load" : how == 1 ? "loadHyperslab" : how == 2 ? "loadShape" : "loadVec");
}
template<class T> void typed(Type t, unsigned op, const std::string& n) {
   switch(op) { case 0: opSave<T>(t, n, false, false); break; case 1: opSave<T>(t, n, true, false); break; case 2: opSave<T>(t, n, false, true); break; case 3: opCreateSlab<T>(t, n); break; case 4: case 5: opSaveSlab<T>(t, n); break;
   case 6: case 7: opLoad<T>(t, n, 0); break; case 8: case 9: opLoad<T>(t, n, 1); break; case 10: opLoad<T>(t, n, 2); break; default: opLoad<T>(t, n, 3); } }
void dispatch(Type t, unsigned op, const std::string& n) { switch(t) { case TDouble: typed<double>(t, op, n); break; case TFloat: typed<float>(t, op, n); break; case TInt: typed<int>(t, op, n); break; case TUChar: typed<unsigned char>(t, op, n); break; default: typed<long>(t, op, n); } }

void lose() { W.st.clear(); W.groupNames.clear(); W.dirtyFault = false; simfs::remove(W.path); }
void closeAll(bool faultsAllowed) {
   std::string e; bool bad = false;
   while(!W.groups.empty()) { hid_t g = W.groups.begin()->second; W.groups.erase(W.groups.begin()); bool ok = faultsAllowed ? attempt("close-group", [&]() { mh::closeGroup(g); }, e) : (mh::closeGroup(g), true); if(!ok) bad = true; }
   if(W.open) { hid_t f = W.file; W.open = false; bool ok = faultsAllowed ? attempt("close-file", [&]() { mh::closeFile(f); }, e) : (mh::closeFile(f), true); if(!ok) { if(!simfs::hard() && !W.dirtyFault) violation("close-spurious-failure", "closeFile failed without a fault: %s", e.c_str()); bad = true; }
      else if(!bad && W.dirtyFault) { /* the file was closed without error: everything acknowledged must be there */ W.dirtyFault = false; } }
   W.cur.clear();
   checkHandles("close");
   if(bad) { ev("close reported an error: contents unknown"); lose(); }
}
void openFileOp(bool create, bool ro) {
   std::string e; hid_t f = -1; bool existed = simfs::exists(W.path);
   mh::HDF5Version v = choose(2) ? mh::LATEST_HDF5_VERSION : mh::DEFAULT_HDF5_VERSION;
   bool ok = create ? attempt("create-file", [&]() { f = mh::createFile(W.path, v); }, e) : attempt("open-file", [&]() { f = mh::openFile(W.path, ro ? mh::READ_ONLY : mh::READ_WRITE, v); }, e);
   bool hard = simfs::hard();
   if(ok) { if(create) { W.st.clear(); W.groupNames.clear(); } W.file = f; W.open = true; W.ro = !create && ro; W.cur.clear(); W.at = f; W.dirtyFault = hard; }
   else { if(!hard && (create || existed)) violation("open-spurious-failure", "%s failed without a fault: %s", create ? "createFile" : "openFile", e.c_str()); if(create || (hard && !ro)) lose(); /* libhdf5 rewrites the superblock when it opens a file for writing: not this library's promise */ else W.dirtyFault = false; }
   checkHandles(create ? "createFile" : "openFile");
}
void run() {
   W.path = "/sim/a.h5"; W.open = false; W.dirtyFault = false; W.cur.clear();
   const char* names[] = { "x", "y", "data" }; const char* gnames[] = { "g", "h" };
   unsigned n = 8 + choose(thorough() ? 40 : 20);
   openFileOp(true, false);
   for(unsigned i = 0; i < n; ++i) {
      if(!W.open) {
         if(simfs::exists(W.path) && choose(3)) { if(choose(2)) { simfs::put("/sim/b.h5", simfs::get(W.path)); simfs::remove(W.path); simfs::put(W.path, simfs::get("/sim/b.h5")); ev("later process"); } openFileOp(false, choose(2)); }
         else openFileOp(true, false);
         continue;
      }
      unsigned what = choose(20);
      if(what == 19) { closeAll(true); continue; }
      if(what == 18 && W.groups.size() < 2) { // groups
         std::string g = gnames[choose(2)], e; bool known = std::find(W.groupNames.begin(), W.groupNames.end(), g) != W.groupNames.end(); hid_t h = -1; if(W.groups.count(g)) continue;
         bool ok = known ? attempt("open-group", [&]() { h = mh::openGroup(W.file, g); }, e) : attempt("create-group", [&]() { h = mh::createGroup(W.file, g); }, e);
         bool hard = simfs::hard();
         if(ok) { if(!known && W.ro) violation("create-accepted", "creating a group in a read-only file was acknowledged"); if(!known) W.groupNames.push_back(g); W.groups[g] = h; W.cur = g; W.at = h; }
         else if(!hard && !W.dirtyFault && !(W.ro && !known)) violation("group-spurious-failure", "%s group failed without a fault: %s", known ? "open" : "create", e.c_str());
         checkHandles("group"); continue;
      }
      if(what == 17) { if(W.groups.empty() || choose(2)) { W.cur.clear(); W.at = W.file; } else { W.cur = W.groups.begin()->first; W.at = W.groups.begin()->second; } continue; }
      std::string nm = names[choose(3)]; Arr& a = W.st[key(nm)]; Type t = a.exists && choose(8) ? a.type : Type(choose(TTypes));
      unsigned op = a.exists ? (choose(3) ? 4 + choose(8) : choose(12)) : choose(4);
      dispatch(t, op, nm);
   }
   // faults have stopped: close, reopen as a later process, everything acknowledged must be there
   if(W.open) closeAll(true);
   if(!simfs::exists(W.path) || W.dirtyFault) finish();
   simfs::put("/sim/b.h5", simfs::get(W.path)); where("final");
   simfs::plan(simfs::Plan());
   hid_t f = -1; try { f = mh::openFile("/sim/b.h5"); } catch(std::exception& x) { violation("acked-file-lost", "the closed file cannot be opened: %s", x.what()); }
   for(auto& kv : W.st) { const Arr& a = kv.second; if(!a.exists) continue; size_t s = kv.first.find('/'); std::string g = kv.first.substr(0, s), nm = kv.first.substr(s + 1), e;
      try { hid_t at = g.empty() ? f : mh::openGroup(f, g); std::vector<size_t> z(a.shape.size(), 0);
         switch(a.type) {
         case TDouble: { marray::Marray<double> m; mh::load(at, nm, m); compareArr("final load", m, a.shape, a, z); break; }
         case TFloat: { marray::Marray<float> m; mh::load(at, nm, m); compareArr("final load", m, a.shape, a, z); break; }
         case TInt: { marray::Marray<int> m; mh::load(at, nm, m); compareArr("final load", m, a.shape, a, z); break; }
         case TUChar: { marray::Marray<unsigned char> m; mh::load(at, nm, m); compareArr("final load", m, a.shape, a, z); break; }
         default: { marray::Marray<long> m; mh::load(at, nm, m); compareArr("final load", m, a.shape, a, z); break; } }
         if(!g.empty()) mh::closeGroup(at); count("arrays-survived");
      } catch(std::exception& x) { violation("acked-array-lost", "array %s was acknowledged and its file closed, but: %s", kv.first.c_str(), x.what()); } }
   mh::closeFile(f);
}
void warmup() { H5open(); H5Eset_auto2(H5E_DEFAULT, 0, 0); hid_t f = H5Fcreate("/sim/warm.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); H5Fclose(f); simfs::remove("/sim/warm.h5"); h5l::clear(); }
Register reg("P03", run, warmup);
}
