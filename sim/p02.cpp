// P02: a save interrupted by a crash leaves a file that loads as the model being saved, as the untouched old file, or not at all.
#include "h5common.hpp"
using namespace sim;
using namespace h5c;
namespace {
template<class GM> void checkImage(const simfs::Bytes& b, bool present, const std::string& ds, const ref::Model& now, const ref::Model* old, bool oldIntact, const char* what) {
   if(!present) { count("crash-no-file"); return; }
   simfs::put("/sim/after-crash.h5", b);
   GM g; std::string e;
   where("load-after-crash");
   bool threw = false;
   try { opengm::hdf5::load(g, "/sim/after-crash.h5", ds); } catch(std::exception& x) { threw = true; e = x.what(); }
   if(threw) { count("crash-image-rejected"); ev("rejected"); if(oldIntact && old) violation("old-file-lost", "%s: the old file was not modified yet but load failed: %s", what, e.c_str()); return; }
   std::string d = gmx::compare(g, now);
   if(d.empty()) { count("crash-image-new"); ev("new"); return; }
   if(old && oldIntact) { std::string d2 = gmx::compare(g, *old); if(d2.empty()) { count("crash-image-old"); ev("old"); return; } d = d2; }
   violation("third-model", "%s: load after the crash returned a model that is neither the new nor the old one: %s", what, d.c_str());
}
template<class GM, bool ANY> void scenario(const ref::GenOpt& o) {
   ref::Model m = ref::gen(o), old; bool hasOld = false;
   GM gm; gmx::build<GM, ANY>(m, gm);
   std::string ds = "gm", path = "/sim/model.h5"; bool sameDs = true;
   if(choose(3)) {
      hasOld = true; unsigned k = choose(3);
      if(k == 0) old = ref::gen(o);
      else { // similar to the new one: same structure, other values (stale bytes of the old file would go unnoticed structurally)
         old = m; for(size_t i = 0; i < old.fn.size(); ++i) if(old.fn[i].kind == ref::Explicit) for(size_t j = 0; j < old.fn[i].t.size(); ++j) old.fn[i].t[j] += 1; }
      GM og; gmx::build<GM, ANY>(old, og); sameDs = choose(4) != 3;
      opengm::hdf5::save(og, path, sameDs ? ds : "other");
   }
   sample("old=%d %s", hasOld, m.str().c_str());
   simfs::plan(simfs::Plan());
   simfs::record(true);
   where("save");
   // optionally an earlier, failing attempt in the same process
   bool failedFirst = choose(4) == 3;
   if(failedFirst) { simfs::Plan p; p.mode = simfs::MSingle; p.kinds = 1u << simfs::KWrite; p.at = static_cast<int64_t>(choose(6)); simfs::plan(p); try { opengm::hdf5::save(gm, path, ds); } catch(...) {} simfs::heal(); }
   opengm::hdf5::save(gm, path, ds);
   simfs::record(false);
   size_t n = simfs::ops().size();
   ev("save performs %zu mutations", n);
   unsigned crashes = thorough() ? 12 : 6;
   for(unsigned c = 0; c < crashes; ++c) {
      size_t at = choose(n + 1); int64_t keep = -1;
      if(at < n && simfs::ops()[at].what == 1 && choose(2)) keep = static_cast<int64_t>(choose(simfs::ops()[at].data.size() + 1));
      simfs::Bytes b; bool present = simfs::image(path, at, keep, b);
      // the old file is intact as long as no mutation of its inode has happened
      bool intact = hasOld && at == 0 && keep <= 0;
      ev("crash after %zu of %zu mutations, torn write keeps %lld bytes, file %zu bytes", at, n, (long long)keep, b.size());
      count(keep >= 0 ? "fault.crash-torn-write" : "fault.crash"); interleaving(at * 1000003ull + static_cast<uint64_t>(keep + 1)); nontrivial();
      checkImage<GM>(b, present, ds, m, sameDs ? &old : 0, intact && sameDs, sim::fmt("crash at %zu/%zu keep %lld", at, n, (long long)keep).c_str());
      if(choose(3) == 2) { // recovery: saving again over the crashed file works
         where("save-after-crash"); simfs::put(path, b);
         std::string e; try { opengm::hdf5::save(gm, path, ds); } catch(std::exception& x) { e = x.what(); }
         if(!e.empty()) violation("save-after-crash-failed", "saving over the remains of a crashed save failed: %s", e.c_str());
         GM g; try { opengm::hdf5::load(g, path, ds); } catch(std::exception& x) { violation("save-after-crash-lost", "%s", x.what()); }
         e = gmx::compare(g, m); if(!e.empty()) violation("save-after-crash-corrupt", "%s", e.c_str());
      }
   }
}
void run() {
   ref::GenOpt o; o.allKinds = true; o.maxVars = 6; o.maxLabels = 4; o.maxOrder = 3;
   if(coin(1, 4)) { o.minVars = 5; o.maxVars = 9; o.maxOrder = 4; o.minLabels = 3; o.maxLabels = 6; o.maxStates = 200000; o.maxFactors = 14; }
   unsigned v = choose(4);
   if(v == 3) { o.allKinds = false; o.uniformLabels = true; o.mul = true; o.maxFactors = 5; o.share = false; scenario<GmC, false>(o); }
   else scenario<GmA, true>(o);
}
Register reg("P02", run, warm);
}
