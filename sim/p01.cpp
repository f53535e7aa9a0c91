// P01: acknowledged HDF5 saves load back identically; disk faults are reported, never crash, never corrupt; retry works.
#include "h5common.hpp"
void p01Special();
using namespace sim;
using namespace h5c;
namespace {
template<class GM> std::string tryLoad(GM& g, const std::string& path, const std::string& ds) {
   try { opengm::hdf5::load(g, path, ds); } catch(std::exception& e) { return std::string("threw: ") + e.what(); }
   return std::string();
}
const ref::Model* gUsed = 0;
template<class GM> void verify(const char* who, const std::string& path, const std::string& ds, const ref::Model& m, const char* sigMissing, const char* sigWrong) {
   GM g;
   if(gUsed) { gmx::build<GM, false>(*gUsed, g); ev("loading into a model object that was used before"); } // load into an object already holding another model
   std::string e = tryLoad(g, path, ds);
   if(!e.empty()) violation(sigMissing, "%s: load %s", who, e.c_str());
   e = gmx::compare(g, m);
   if(!e.empty()) violation(sigWrong, "%s: loaded model differs: %s", who, e.c_str());
}
template<class GM, class OTHER, bool ANY> void scenario(const ref::GenOpt& o) {
   ref::Model m = ref::gen(o);
   GM gm; gmx::build<GM, ANY>(m, gm);
   const char* names[] = { "gm", "model-1", "a" }; std::string ds = names[choose(3)], path = "/sim/model.h5";
   unsigned pre = choose(4);     // what is at the path before
   ref::Model old; bool hasOld = false;
   if(pre == 1) { old = ref::gen(o); hasOld = true; GM og; gmx::build<GM, ANY>(old, og); try { opengm::hdf5::save(og, path, ds); } catch(std::exception& e) { violation("clean-save-failed", "saving without any fault failed: %s", e.what()); } }
   else if(pre == 2) { simfs::Bytes b(choose(3000)); for(size_t i = 0; i < b.size(); ++i) b[i] = static_cast<unsigned char>(i * 31); simfs::put(path, b); }
   ref::Model used; if(choose(4) == 3) { ref::GenOpt u(o); u.allKinds = false; used = ref::gen(u); gUsed = &used; }
   sample("pre=%u %s", pre, m.str().c_str());
   unsigned rounds = 1 + choose(3);
   for(unsigned r = 0; r < rounds; ++r) {
      // dry run to learn how many operations a clean save performs, then place the fault inside
      unsigned faulty = choose(4);  // 0 none, 1-2 plan, 3 disk full
      simfs::Plan none; simfs::plan(none);
      bool acked = false; std::string why;
      where("save");
      if(faulty) {
         try { opengm::hdf5::save(gm, "/sim/dry.h5", ds); } catch(std::exception& e) { violation("clean-save-failed", "saving without any fault failed: %s", e.what()); }
         std::vector<int64_t> n = opCounts(); size_t sz = simfs::get("/sim/dry.h5").size(); simfs::remove("/sim/dry.h5");
         if(faulty == 3) { size_t used = simfs::exists(path) ? simfs::get(path).size() : 0; (void)used; simfs::plan(none); simfs::capacity(choose(sz + 1)); ev("save with disk capacity"); }
         else { simfs::Plan p = drawPlan(n, false); simfs::plan(p); ev("save with %s", planStr(p).c_str()); }
      }
      try { opengm::hdf5::save(gm, path, ds); acked = true; } catch(std::exception& e) { why = e.what(); } catch(...) { why = "non-standard exception"; }
      bool fired = simfs::fired() > 0, hard = simfs::hard();
      simfs::heal();
      ev("save %s fired=%d hard=%d", acked ? "acknowledged" : "threw", fired, hard);
      if(fired) { nontrivial(); count(acked ? "save-acked-despite-fault" : "save-rejected"); }
      if(!acked && !hard) violation("save-spurious-failure", "save failed without any error reported by the disk: %s", why.c_str());
      if(acked) {
         // a later process sees only the bytes in the file
         simfs::put("/sim/later.h5", simfs::exists(path) ? simfs::get(path) : simfs::Bytes());
         where("load-later");
         verify<GM>("later process", "/sim/later.h5", ds, m, "acked-save-lost", "acked-save-corrupt");
         where("load");
         verify<GM>("same process", path, ds, m, "acked-save-unreadable-in-process", "acked-save-corrupt-in-process");
         if(choose(3) == 2) { where("load-other-type"); verify<OTHER>("other function type order", "/sim/later.h5", ds, m, "load-other-failed", "load-other-wrong"); }
      }
      if(!acked) { // what a rejected save leaves behind may be unreadable, but must not look like another model
         where("load-rejected-save");
         simfs::put("/sim/left.h5", simfs::exists(path) ? simfs::get(path) : simfs::Bytes());
         GM g; std::string e = tryLoad(g, "/sim/left.h5", ds);
         if(e.empty()) { e = gmx::compare(g, m); std::string e2 = hasOld ? gmx::compare(g, old) : e; if(!e.empty() && !e2.empty()) violation("rejected-save-wrong-model", "a save that reported failure left a file that loads as a different model: %s", e.c_str()); }
      }
      // fault gone: the same save on the same path must work now
      if(!acked || choose(4) == 3) {
         where("save-retry");
         std::string e; try { opengm::hdf5::save(gm, path, ds); } catch(std::exception& x) { e = x.what(); }
         if(!e.empty()) violation("save-retry-failed", "after a failed save (%s) the retry without faults failed: %s", why.c_str(), e.c_str());
         verify<GM>("after retry", path, ds, m, "retry-save-lost", "retry-save-corrupt");
         simfs::put("/sim/later.h5", simfs::get(path));
         verify<GM>("later process after retry", "/sim/later.h5", ds, m, "retry-save-lost", "retry-save-corrupt");
         nontrivial();
      }
      // loads under faults
      unsigned nl = choose(3);
      for(unsigned k = 0; k < nl; ++k) {
         where("load-fault");
         simfs::plan(none); { GM g; tryLoad(g, path, ds); } std::vector<int64_t> n = opCounts();
         simfs::Plan p = drawPlan(n, true); simfs::plan(p); ev("load with %s", planStr(p).c_str());
         GM g; std::string e = tryLoad(g, path, ds);
         fired = simfs::fired() > 0; hard = simfs::hard(); simfs::heal();
         ev("load %s fired=%d", e.empty() ? "returned" : "threw", fired);
         if(fired) { nontrivial(); count(e.empty() ? "load-ok-despite-fault" : "load-rejected"); }
         if(!e.empty() && !hard) violation("load-spurious-failure", "load failed without any disk error: %s", e.c_str());
         if(e.empty()) { e = gmx::compare(g, m); if(!e.empty()) violation("load-fault-wrong-model", "load under disk faults returned a different model: %s", e.c_str()); }
         where("load-retry");
         if(choose(2)) verify<GM>("load retry", path, ds, m, "load-retry-failed", "load-retry-wrong");
         else { // the same model object is used again
            e = tryLoad(g, path, ds); if(!e.empty()) violation("load-retry-failed", "load retry into the same object: %s", e.c_str());
            e = gmx::compare(g, m); if(!e.empty()) violation("load-reuse-wrong", "load into an object that was loaded into before: %s", e.c_str());
         }
      }
      std::string lk; size_t hs = h5l::leaked(lk);
      if(hs != 0) violation("handle-leak", "%zu HDF5 handles never closed after all saves and loads returned: %s", hs, lk.c_str());
      if(r + 1 < rounds && choose(2)) { old = m; hasOld = true; m = ref::gen(o); gmx::build<GM, ANY>(m, gm); }
   }
}
// ---- other type lists and value types
template<class T, class I, class L> struct TL2 { typedef typename opengm::meta::TypeListGenerator<opengm::ExplicitFunction<T, I, L>, opengm::PottsFunction<T, I, L> >::type type; };
template<class T, class I, class L> struct TL4 { typedef typename opengm::meta::TypeListGenerator<opengm::SparseFunction<T, I, L, std::map<size_t, T> >, opengm::ConstantFunction<T, I, L>, opengm::PottsFunction<T, I, L>, opengm::ExplicitFunction<T, I, L> >::type type; };
typedef opengm::GraphicalModel<double, opengm::Adder, TL2<double, size_t, size_t>::type, opengm::DiscreteSpace<size_t, size_t> > GmFew;
typedef opengm::GraphicalModel<double, opengm::Adder, TL4<double, size_t, size_t>::type, opengm::DiscreteSpace<size_t, size_t> > GmMid;
typedef opengm::GraphicalModel<float, opengm::Adder, TL4<float, unsigned, unsigned>::type, opengm::DiscreteSpace<unsigned, unsigned> > GmFloat;
typedef opengm::GraphicalModel<long, opengm::Adder, opengm::ExplicitFunction<long>, opengm::DiscreteSpace<> > GmLong;
typedef opengm::GraphicalModel<int, opengm::Adder, opengm::ExplicitFunction<int>, opengm::DiscreteSpace<> > GmInt;
typedef opengm::GraphicalModel<unsigned char, opengm::Adder, opengm::ExplicitFunction<unsigned char>, opengm::DiscreteSpace<> > GmByte;
typedef opengm::GraphicalModel<unsigned long, opengm::Adder, opengm::ExplicitFunction<unsigned long>, opengm::DiscreteSpace<> > GmULong;
typedef opengm::GraphicalModel<double, opengm::Adder, opengm::ExplicitFunction<double>, opengm::DiscreteSpace<> > GmDbl;
bool within(const ref::Model& m, unsigned kinds) { for(size_t i = 0; i < m.fn.size(); ++i) if(!(kinds >> m.fn[i].kind & 1)) return false; return true; }
template<class GM> void into(const char* what, const ref::Model& m, unsigned kinds) {
   where(what); ev("%s", what); GM g; if(choose(3) == 2) { ref::GenOpt u; ref::Model um = ref::gen(u); gmx::build<GM, false>(um, g); } std::string e = tryLoad(g, "/sim/t.h5", "gm"); bool can = within(m, kinds);
   if(can && !e.empty()) violation(std::string("typed-rejected:") + what, "%s: load %s", what, e.c_str()); if(!can && e.empty()) violation(std::string("typed-accepted:") + what, "%s: a model with functions that the type lacks was loaded", what);
   if(can) { e = gmx::compare(g, m); if(!e.empty()) violation(std::string("typed-wrong:") + what, "%s: %s", what, e.c_str()); nontrivial(); count("probe.typed-load"); } else count("fault.unsupported-functions");
}
template<class GM, bool ANY> void savedAs(const char* what, const ref::Model& m) { where(what); ev("save as %s", what); GM g; gmx::build<GM, ANY>(m, g); std::string e; try { opengm::hdf5::save(g, "/sim/t.h5", "gm"); } catch(std::exception& x) { e = x.what(); } if(!e.empty()) violation(std::string("typed-save:") + what, "saving failed: %s", e.c_str()); }
void typed() {
   const unsigned all = ~0u, few = 1u << ref::Explicit | 1u << ref::Potts, mid = few | 1u << ref::Sparse | 1u << ref::Constant;
   ref::GenOpt o; o.maxVars = 5; o.maxLabels = 4; o.minVars = 0; unsigned v = choose(3); o.allKinds = v < 2; ref::Model m = ref::gen(o);
   if(v < 2) { // function type lists: use only some kinds
      unsigned keep = choose(3) == 0 ? all : choose(2) ? few : mid; for(size_t i = 0; i < m.fn.size(); ++i) if(!(keep >> m.fn[i].kind & 1)) { m.fn[i].kind = ref::Explicit; m.fn[i].p.clear(); }
      sample("typed %s", m.str().c_str()); bool isMid = within(m, mid), isFew = within(m, few); unsigned s = choose(4); if(s == 0 && isFew) savedAs<GmFew, false>("few types", [&] { ref::Model q(m); for(size_t i = 0; i < q.fn.size(); ++i) q.fn[i].kind = ref::Explicit; return m = q; }()); else if(s == 1 && isMid) { ref::Model q(m); for(size_t i = 0; i < q.fn.size(); ++i) q.fn[i].kind = ref::Explicit; m = q; savedAs<GmMid, false>("some types", m); } else if(s == 2) savedAs<GmB, true>("all types, other order", m); else savedAs<GmA, true>("all types", m);
      for(int k = 0; k < 2; ++k) switch(choose(5)) { case 0: into<GmFew>("into few types", m, few); break; case 1: into<GmMid>("into some types", m, mid); break; case 2: into<GmA>("into all types", m, all); break; case 3: into<GmB>("into all types, other order", m, all); break; default: into<GmFloat>("into float", m, mid); }
   } else { // value types: integer tables
      bool neg = false; for(size_t i = 0; i < m.fn.size(); ++i) for(size_t k = 0; k < m.fn[i].t.size(); ++k) m.fn[i].t[k] *= 4; unsigned s = choose(5); if(s == 2 || s == 3) { size_t mx = s == 2 ? 255 / std::max<size_t>(1, m.F.size()) : 1000; for(size_t i = 0; i < m.fn.size(); ++i) for(size_t k = 0; k < m.fn[i].t.size(); ++k) m.fn[i].t[k] = double(size_t(std::fabs(m.fn[i].t[k])) % (mx + 1)); } else if(choose(3) == 2) for(size_t i = 0; i < m.fn.size(); ++i) for(size_t k = 0; k < m.fn[i].t.size(); ++k) m.fn[i].t[k] *= s == 1 ? 1000000 : 1e12;
      for(size_t i = 0; i < m.fn.size(); ++i) for(size_t k = 0; k < m.fn[i].t.size(); ++k) if(m.fn[i].t[k] < 0) neg = true; double big = 0; for(size_t i = 0; i < m.fn.size(); ++i) for(size_t k = 0; k < m.fn[i].t.size(); ++k) big = std::max(big, std::fabs(m.fn[i].t[k])); big *= std::max<size_t>(1, m.F.size()); sample("typed values %u %s", s, m.str().c_str());
      switch(s) { case 0: savedAs<GmLong, false>("long", m); break; case 1: savedAs<GmInt, false>("int", m); break; case 2: savedAs<GmByte, false>("unsigned char", m); break; case 3: savedAs<GmULong, false>("unsigned long", m); break; default: savedAs<GmDbl, false>("double", m); }
      for(int k = 0; k < 2; ++k) switch(choose(6)) { case 0: into<GmLong>("into long", m, all); break; case 1: if(big < 2e9) into<GmInt>("into int", m, all); break; case 2: if(!neg && big < 256) into<GmByte>("into unsigned char", m, all); break; case 3: if(!neg) into<GmULong>("into unsigned long", m, all); break; case 4: into<GmDbl>("into double", m, all); break; default: if(big < 1e6) into<GmFloat>("into float", m, all); }
   }
   std::string lk; size_t hs = h5l::leaked(lk); if(hs) violation("handle-leak", "%zu HDF5 handles never closed: %s", hs, lk.c_str());
}
void run() {
   unsigned part = choose(6); if(part == 5) { typed(); return; } if(part == 4) { p01Special(); return; }
   ref::GenOpt o; o.allKinds = true; o.maxVars = 6; o.maxLabels = 4; o.maxOrder = 3; o.minVars = 0;
   if(thorough() && coin(1, 4)) { o.maxVars = 12; o.maxFactors = 40; o.maxOrder = 4; o.maxLabels = 5; }
   else if(coin(1, 8)) { o.minVars = 5; o.maxVars = 8; o.maxOrder = 4; o.minLabels = 4; o.maxLabels = 6; o.maxStates = 200000; o.maxFactors = 14; o.allKinds = coin(1, 2); } // files spanning several blocks
   unsigned v = choose(4);
   if(v == 3) { o.allKinds = false; o.uniformLabels = true; o.mul = true; o.minVars = 1; o.maxFactors = 5; o.share = false; scenario<GmC, GmC, false>(o); }
   else if(v == 2) scenario<GmB, GmA, true>(o);
   else scenario<GmA, GmB, true>(o);
}
Register reg("P01", run, warm);
}
