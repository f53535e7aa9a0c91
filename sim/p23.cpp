// P23: containers behave like their models through histories, failing allocations and failing element copies.
#include "sim.hpp"
#include <algorithm>
#include <cstddef>
#include <cstdlib>
#include <iterator>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <vector>
#include <opengm/opengm.hxx>
#include <opengm/datastructures/buffer_vector.hxx>
#include <opengm/datastructures/fast_sequence.hxx>
#include <opengm/datastructures/partition.hxx>
#include <opengm/datastructures/randomaccessset.hxx>
#include <opengm/utilities/queues.hxx>
#include <opengm/utilities/disjoint-set.hxx>
namespace {
std::string N;
void bad(const char* what, const std::string& m) { sim::violation(N + ":" + what, "%s", m.c_str()); }
struct CopyFault {};
// An element whose copies may fail and which knows whether it is alive.
struct Cell {
   int v; const Cell* self; static long throwAt, copies, alive; static bool fired;
   static void tick() { if(throwAt >= 0 && copies++ == throwAt) { fired = true; sim::count("fault.copy-throws"); throw CopyFault(); } }
   Cell() : v(0), self(this) { ++alive; }
   Cell(int x) : v(x), self(this) { ++alive; }
   Cell(const Cell& o) : v(o.get()), self(this) { tick(); ++alive; }
   Cell& operator=(const Cell& o) { int x = o.get(); get(); tick(); v = x; return *this; }
   ~Cell() { get(); self = 0; --alive; }
   int get() const { if(self != this) { Cell::throwAt = -1; bad("dead-element", "an element was used that is not alive"); } return v; }
   bool operator<(const Cell& o) const { return get() < o.get(); }
   bool operator>(const Cell& o) const { return get() > o.get(); }
};
long Cell::throwAt = -1, Cell::copies = 0, Cell::alive = 0; bool Cell::fired = false;
int val(int x) { return x; } int val(const Cell& c) { return c.get(); }
// Arms a fault for one operation. True: the operation was aborted.
template<class F> bool op(const char* name, F f) {
   sim::where((N + ":" + name).c_str()); sim::ev("%s", name); sim::count("history.operation"); int k = int(sim::choose(6)); Cell::fired = false; Cell::copies = 0; bool aborted = false;
   if(k == 4) sim::Alloc::failAt(long(sim::choose(3))); if(k == 5) Cell::throwAt = long(sim::choose(1u << sim::choose(5)));
   try { sim::Lib l; f(); } catch(CopyFault&) { aborted = true; } catch(std::bad_alloc&) { aborted = true; }
   Cell::throwAt = -1; bool al = k == 4 && sim::Alloc::fired(); sim::Alloc::failAt(-1); if(al) sim::count("fault.alloc-fails");
   if(aborted != (al || Cell::fired)) bad(aborted ? "phantom" : "swallowed", std::string(name) + (aborted ? " threw without a fault" : " swallowed the fault")); if(aborted) { sim::count("history.aborted"); sim::ev("aborted"); }
   return aborted;
}
const int ANY = -1000000;
// ---------------------------------------------------------------- sequences
template<class S> struct Seqs {
   std::unique_ptr<S> s[3]; std::vector<int> m[3];
   typedef typename S::value_type T;
   void check(int i) {
      const S& c = *s[i]; S& w = *s[i]; if(c.size() != m[i].size()) bad("size", sim::fmt("%zu elements instead of %zu", size_t(c.size()), m[i].size())); if(c.empty() != m[i].empty()) bad("empty", "empty() is wrong"); sim::hashInt(c.size());
      if(m[i].empty()) { if(c.begin() != c.end()) bad("iterate", "begin() != end() for an empty sequence"); return; }
      if(c.end() - c.begin() != ptrdiff_t(m[i].size()) || w.end() - w.begin() != ptrdiff_t(m[i].size())) bad("iterate", "end() - begin() is not size()");
      for(size_t k = 0; k < m[i].size(); ++k) { int v = val(c[k]); if(m[i][k] == ANY) m[i][k] = v; if(v != m[i][k] || val(c.begin()[k]) != v || val(w[k]) != v || val(w.begin()[k]) != v) bad("element", sim::fmt("element %zu is %d instead of %d", k, v, m[i][k])); sim::hashInt(uint64_t(v)); }
      if(val(c.front()) != m[i][0] || val(c.back()) != m[i].back() || val(w.front()) != m[i][0] || val(w.back()) != m[i].back()) bad("front-back", "front() or back() is wrong"); sim::nontrivial();
   }
   // after an abort every element is an old or a new one
   void recover(int i, const std::vector<int>& a) { std::vector<int> o = m[i]; size_t n = s[i]->size(); if(n != o.size() && n != a.size()) bad("aborted-size", sim::fmt("%zu elements after an aborted operation (before %zu, attempted %zu)", n, o.size(), a.size()));
      m[i].resize(n); for(size_t k = 0; k < n; ++k) { int v = val((*s[i])[k]); bool ok = (k >= o.size() && k >= a.size()) || (k < o.size() && (o[k] == v || o[k] == ANY)) || (k < a.size() && (a[k] == v || a[k] == ANY)) || (k >= o.size()); if(!ok) bad("aborted-element", sim::fmt("element %zu is %d after an aborted operation", k, v)); m[i][k] = v; } check(i); }
   template<class F> void act(int i, const char* name, const std::vector<int>& after, F f) { if(op(name, f)) recover(i, after); else { m[i] = after; check(i); } }
   size_t len() { return sim::choose(sim::choose(4) == 3 ? 40 : 9); }
   void step() {
      int i = int(sim::choose(3)); S* c = s[i].get(); std::vector<int> a = m[i]; int x = int(sim::choose(100));
      if(!c) { S* p = 0; int how = int(sim::choose(4)), j = int(sim::choose(3)); size_t n = len(); T t(x); std::vector<int> after; if(how == 3 && !s[j]) how = 0;
         if(how == 1) after.assign(n, ANY); if(how == 2) after.assign(n, x); if(how == 3) after = m[j]; if(how == 3) check(j);
         if(op(how == 0 ? "construct" : how == 1 ? "construct(n)" : how == 2 ? "construct(n,value)" : "copy", [&] { p = how == 0 ? new S : how == 1 ? new S(n) : how == 2 ? new S(n, t) : new S(*s[j]); })) return; s[i].reset(p); m[i] = after; check(i); if(how == 3) check(j); return; }
      switch(sim::choose(11)) {
      case 0: case 1: { T t(x); a.push_back(x); act(i, "push_back", a, [&] { c->push_back(t); }); break; }
      case 2: if(!a.empty()) { size_t k = sim::choose(a.size()); a.push_back(a[k]); act(i, "push_back(own element)", a, [&] { c->push_back((*c)[k]); }); } break;
      case 3: { size_t n = len(); a.resize(n, ANY); act(i, "resize", a, [&] { c->resize(n); }); break; }
      case 4: { size_t n = len(); act(i, "reserve", a, [&] { c->reserve(n); }); break; }
      case 5: act(i, "clear", std::vector<int>(), [&] { c->clear(); }); break;
      case 6: { std::vector<T> in; std::vector<int> v; for(size_t n = len(); n > 0; --n) { v.push_back(int(sim::choose(100))); in.push_back(T(v.back())); } act(i, "assign", v, [&] { c->assign(in.begin(), in.end()); }); break; }
      case 7: { int j = int(sim::choose(3)); if(s[j]) { std::vector<int> b = m[j]; act(i, i == j ? "self-assignment" : "assignment", b, [&] { *c = *s[j]; }); check(j); } break; }
      case 8: if(!a.empty()) { size_t k = sim::choose(a.size()); T t(x); a[k] = x; act(i, "write", a, [&] { (*c)[k] = t; }); } break;
      case 9: op("destroy", [&] { s[i].reset(); }); m[i].clear(); break;
      default: check(i); }
   }
   void run() { for(uint64_t k = 2 + sim::choose(40); k > 0; --k) step(); for(int i = 0; i < 3; ++i) { if(s[i]) check(i); sim::Lib l; s[i].reset(); } }
};
// ---------------------------------------------------------------- random access set
template<class K, class C> struct Sets {
   typedef opengm::RandomAccessSet<K, C> S; struct Less { bool operator()(int a, int b) const { return C()(K(a), K(b)); } }; typedef std::set<int, Less> M;
   std::unique_ptr<S> s[2]; M m[2];
   void check(int i) {
      const S& c = *s[i]; S& w = *s[i]; if(c.size() != m[i].size() || c.empty() != m[i].empty()) bad("size", sim::fmt("%zu elements instead of %zu", size_t(c.size()), m[i].size())); sim::hashInt(c.size()); size_t k = 0;
      if(size_t(c.end() - c.begin()) != m[i].size() || size_t(w.end() - w.begin()) != m[i].size()) bad("iterate", "end() - begin() is not size()");
      for(typename M::iterator it = m[i].begin(); it != m[i].end(); ++it, ++k) { int v = val(c[k]); if(v != *it || val(c.begin()[k]) != v || val(w.begin()[k]) != v) bad("element", sim::fmt("element %zu is %d instead of %d", k, v, *it)); sim::hashInt(uint64_t(v)); }
      int q = int(sim::choose(24)); K t(q); bool in = m[i].count(q) > 0; if(size_t(c.count(t)) != size_t(in)) bad("count", sim::fmt("count(%d) is wrong", q));
      if((c.find(t) != c.end()) != in || (in && val(*c.find(t)) != q) || (w.find(t) != w.end()) != in || (in && val(*w.find(t)) != q)) bad("find", sim::fmt("find(%d) is wrong", q));
      size_t lo = std::distance(m[i].begin(), m[i].lower_bound(q)), up = std::distance(m[i].begin(), m[i].upper_bound(q));
      if(size_t(c.lower_bound(t) - c.begin()) != lo || size_t(w.lower_bound(t) - w.begin()) != lo || size_t(c.upper_bound(t) - c.begin()) != up || size_t(w.upper_bound(t) - w.begin()) != up) bad("bound", sim::fmt("lower or upper bound of %d is wrong", q));
      if(size_t(c.equal_range(t).first - c.begin()) != lo || size_t(c.equal_range(t).second - c.begin()) != up || size_t(w.equal_range(t).first - w.begin()) != lo || size_t(w.equal_range(t).second - w.begin()) != up) bad("equal-range", sim::fmt("equal_range(%d) is wrong", q));
      if(c.max_size() < c.size() || c.capacity() < c.size()) bad("capacity", "capacity() < size()"); sim::nontrivial();
   }
   // a failing element copy inside std::vector gives the basic guarantee only: the set must still be usable, which clearing it shows
   void recover(int i) { if(Cell::fired) { sim::Lib l; s[i]->clear(); m[i].clear(); } check(i); }
   std::vector<int> some() { std::vector<int> v; for(uint64_t n = sim::choose(7); n > 0; --n) v.push_back(int(sim::choose(24))); return v; }
   void step() {
      int i = int(sim::choose(2)), j = 1 - i; S* c = s[i].get(); int x = int(sim::choose(24)); K t(x);
      if(!c) { S* p = 0; int how = int(sim::choose(4)); if(how == 3 && !s[j]) how = 0; std::vector<int> v = some(); std::vector<K> in(v.begin(), v.end()); M after; if(how == 2) after.insert(v.begin(), v.end()); if(how == 3) after = m[j];
         if(op("construct", [&] { p = how == 0 ? new S : how == 1 ? new S(size_t(x)) : how == 2 ? new S(in.begin(), in.end()) : new S(*s[j]); })) return; s[i].reset(p); m[i] = after; check(i); if(how == 3) check(j); return; }
      M a = m[i];
      switch(sim::choose(13)) {
      case 0: case 1: { std::pair<typename S::const_iterator, bool> r; bool neu = a.insert(x).second; if(op("insert", [&] { r = c->insert(t); })) { recoverOne(i, a); break; } m[i] = a; check(i); if(r.second != neu || val(*r.first) != x || r.first != c->find(t)) bad("insert-result", sim::fmt("insert(%d) returned a wrong result", x)); break; }
      case 2: { std::vector<int> v = some(); std::vector<K> in(v.begin(), v.end()); a.insert(v.begin(), v.end()); if(op("insert(range)", [&] { c->insert(in.begin(), in.end()); })) recoverOne(i, a); else { m[i] = a; check(i); } break; }
      case 3: { size_t pos = sim::choose(a.size() + 1); typename S::const_iterator r, h = static_cast<const S*>(c)->begin() + ptrdiff_t(pos); a.insert(x); if(op("insert(hint)", [&] { r = c->insert(h, t); })) { recoverOne(i, a); break; } m[i] = a; check(i); if(r != c->find(t)) bad("insert-result", sim::fmt("insert(hint, %d) returned a wrong iterator", x)); break; }
      case 4: case 5: { size_t r = 0, w = a.erase(x); if(op("erase(key)", [&] { r = c->erase(t); })) { recover(i); break; } m[i] = a; check(i); if(r != w) bad("erase-result", sim::fmt("erase(%d) returned %zu", x, r)); break; }
      case 6: if(!a.empty()) { size_t k = sim::choose(a.size()); typename M::iterator it = a.begin(); std::advance(it, k); a.erase(it); if(op("erase(position)", [&] { c->erase(c->begin() + ptrdiff_t(k)); })) recover(i); else { m[i] = a; check(i); } } break;
      case 7: { size_t b = sim::choose(a.size() + 1), e = b + sim::choose(a.size() - b + 1); typename M::iterator f = a.begin(), l = a.begin(); std::advance(f, b); std::advance(l, e); a.erase(f, l); const S* k = c; if(op("erase(range)", [&] { c->erase(k->begin() + ptrdiff_t(b), k->begin() + ptrdiff_t(e)); })) recover(i); else { m[i] = a; check(i); } break; }
      case 8: if(s[j]) { if(!op("swap", [&] { c->swap(*s[j]); })) std::swap(m[i], m[j]); check(i); check(j); } break;
      case 9: if(s[j]) { if(op("assignment", [&] { *c = *s[j]; })) { if(Cell::fired) recover(i); else check(i); } else m[i] = m[j]; check(i); check(j); } break;
      case 10: op("clear", [&] { c->clear(); }); m[i].clear(); check(i); break;
      case 11: if(op("reserve", [&] { c->reserve(size_t(x) * 3); })) recover(i); check(i); break;
      default: { std::set<K, C> in; std::vector<int> v = some(); for(size_t k = 0; k < v.size(); ++k) in.insert(K(v[k])); if(op("assignFromSet", [&] { c->assignFromSet(in); })) { recover(i); break; } m[i] = M(v.begin(), v.end()); check(i); } }
   }
   // an aborted insertion leaves the set with some of the new elements, or (failing copies) merely usable
   void recoverOne(int i, const M& a) { if(Cell::fired) { recover(i); return; } M got; for(size_t k = 0; k < s[i]->size(); ++k) got.insert(val((*s[i])[k])); if(!std::includes(a.begin(), a.end(), got.begin(), got.end(), Less()) || !std::includes(got.begin(), got.end(), m[i].begin(), m[i].end(), Less())) bad("aborted-elements", "an aborted insertion lost or invented elements"); m[i] = got; check(i); }
   void run() { for(uint64_t k = 2 + sim::choose(40); k > 0; --k) step(); for(int i = 0; i < 2; ++i) { if(s[i]) check(i); sim::Lib l; s[i].reset(); } }
};
// ---------------------------------------------------------------- partitions
template<class P> void labelings(P& p, const std::vector<size_t>& c, size_t sets) {
   typedef std::map<size_t, size_t> R; R rl; p.representativeLabeling(rl); if(rl.size() != sets) bad("representatives", sim::fmt("%zu representatives for %zu sets", rl.size(), sets));
   std::set<size_t> cls, lab; for(R::iterator it = rl.begin(); it != rl.end(); ++it) { if(it->first >= c.size() || p.find(it->first) != it->first) bad("representatives", "not a representative"); cls.insert(c[it->first]); lab.insert(it->second); if(it->second >= sets) bad("representatives", "label out of range"); }
   if(cls.size() != sets || lab.size() != sets) bad("representatives", "representatives or labels are not distinct");
}
void partition() {
   typedef opengm::Partition<size_t> P; N = "partition"; std::unique_ptr<P> p; std::vector<size_t> c; // c: class of each element
   { P* q = 0; size_t n = sim::choose(12); bool d = sim::choose(3) == 2; if(op("construct", [&] { q = d ? new P : new P(n); })) return; p.reset(q); if(!d) for(size_t i = 0; i < n; ++i) c.push_back(i); }
   for(uint64_t k = 2 + sim::choose(40); k > 0; --k) {
      size_t n = c.size(), a = n ? sim::choose(n) : 0, b = n ? sim::choose(n) : 0;
      switch(sim::choose(8)) {
      case 0: case 1: case 2: case 3: if(n) { op("merge", [&] { p->merge(a, b); }); size_t from = c[b], to = c[a]; for(size_t i = 0; i < n; ++i) if(c[i] == from) c[i] = to; } break;
      case 4: { size_t m = sim::choose(6); if(!op("insert", [&] { p->insert(m); })) for(size_t i = 0; i < m; ++i) c.push_back(n + i + 1000 * k); break; }
      case 5: if(sim::choose(4) == 3) { size_t m = sim::choose(20); if(!op("reset", [&] { p->reset(m); })) { c.clear(); for(size_t i = 0; i < m; ++i) c.push_back(i); } } break;
      case 6: if(sim::choose(3) == 2) { P* q = 0; if(!op("copy", [&] { q = new P(*p); })) { sim::Lib l; p.reset(q); } } break;
      default: if(n) { size_t r = 0; op("find", [&] { r = p->find(a); }); if(r >= n || c[r] != c[a]) bad("find", "find() left the set"); } }
      n = c.size(); const P& q = *p; std::set<size_t> cls(c.begin(), c.end()); if(q.numberOfElements() != n) bad("elements", sim::fmt("%zu elements instead of %zu", size_t(q.numberOfElements()), n)); if(q.numberOfSets() != cls.size()) bad("sets", sim::fmt("%zu sets instead of %zu", size_t(q.numberOfSets()), cls.size()));
      for(size_t i = 0; i < n; ++i) { size_t r = q.find(i); if(r >= n || c[r] != c[i] || q.find(r) != r) bad("find", sim::fmt("element %zu has representative %zu of another set", i, r)); for(size_t j = 0; j < i; ++j) if((q.find(j) == r) != (c[i] == c[j])) bad("same-set", sim::fmt("elements %zu and %zu: same set? wrong", i, j)); sim::hashInt(r); }
      std::vector<size_t> rep(cls.size() + 1, 77777); q.representatives(rep.begin()); for(size_t i = 0; i < cls.size(); ++i) if(rep[i] >= n || q.find(rep[i]) != rep[i] || (i && rep[i] <= rep[i - 1])) bad("representatives", "representatives() is wrong"); if(rep.back() != 77777) bad("representatives", "too many representatives");
      if(!cls.empty()) labelings(*p, c, cls.size()); std::map<size_t, size_t> rl; q.representativeLabeling(rl); std::vector<size_t> el(n + 1, 77777); q.elementLabeling(el.begin()); for(size_t i = 0; i < n; ++i) if(el[i] != rl[q.find(i)]) bad("element-labels", sim::fmt("element %zu has label %zu", i, el[i])); if(el[n] != 77777) bad("element-labels", "too many labels"); if(n) sim::nontrivial();
   }
   sim::Lib l; p.reset();
}
void disjoint() {
   typedef opengm::disjoint_set<size_t> P; N = "disjoint-set"; size_t n = 1 + sim::choose(12); std::unique_ptr<P> p; { P* q = 0; if(op("construct", [&] { q = new P(n); })) return; p.reset(q); } std::vector<size_t> c; for(size_t i = 0; i < n; ++i) c.push_back(i);
   for(uint64_t k = 2 + sim::choose(30); k > 0; --k) { size_t a = sim::choose(n), b = sim::choose(n);
      if(sim::choose(8) == 7) { P* q = 0; if(!op("copy", [&] { q = new P(*p); })) { sim::Lib l; p.reset(q); } }
      if(sim::choose(3)) { op("join", [&] { p->join(a, b); }); size_t from = c[b], to = c[a]; for(size_t i = 0; i < n; ++i) if(c[i] == from) c[i] = to; }
      std::set<size_t> cls(c.begin(), c.end()); if(p->numberOfSets() != cls.size()) bad("sets", "numberOfSets() is wrong"); for(size_t i = 0; i < n; ++i) { size_t r = p->find(i); if(r >= n || c[r] != c[i]) bad("find", "find() left the set"); if(p->size(i) != size_t(std::count(c.begin(), c.end(), c[i]))) bad("set-size", sim::fmt("size(%zu) is wrong", i)); for(size_t j = 0; j < i; ++j) if((p->find(j) == r) != (c[i] == c[j])) bad("same-set", "two elements: same set? wrong"); sim::hashInt(r); }
      labelings(*p, c, cls.size()); sim::nontrivial(); }
   sim::Lib l; p.reset();
}
// ---------------------------------------------------------------- queues
template<class C> void priority(const char* name) {
   typedef opengm::ChangeablePriorityQueue<double, C> Q; N = name; size_t mx = 1 + sim::choose(14); std::unique_ptr<Q> p; { Q* q = 0; if(op("construct", [&] { q = new Q(mx); })) return; p.reset(q); } std::map<int, double> m; std::vector<double> last(mx, 0); std::vector<bool> known(mx, false); C lt;
   for(uint64_t k = 2 + sim::choose(60); k > 0; --k) { int i = int(sim::choose(mx)); double pr = double(sim::choose(12)) / 2 - 2;
      switch(sim::choose(9)) {
      case 0: case 1: case 2: op("push", [&] { p->push(i, pr); }); m[i] = pr; last[i] = pr; known[i] = true; break;
      case 3: if(m.count(i)) { op("changePriority", [&] { p->changePriority(i, pr); }); m[i] = pr; last[i] = pr; } break;
      case 4: if(!m.empty()) { int t = p->top(); op("pop", [&] { p->pop(); }); if(!m.count(t)) bad("top", "top() is not in the queue"); m.erase(t); } break;
      case 5: if(m.count(i)) { op("deleteItem", [&] { p->deleteItem(i); }); m.erase(i); } break;
      case 6: if(sim::choose(6) == 5) { op("reset", [&] { p->reset(); }); m.clear(); } break;
      case 7: if(sim::choose(6) == 5) { op("setPriorities", [&] { p->setPriorities(pr); }); for(std::map<int, double>::iterator it = m.begin(); it != m.end(); ++it) it->second = pr; last.assign(mx, pr); known.assign(mx, true); } break;
      default: ; }
      const Q& q = *p; if(q.size() != int(m.size()) || q.empty() != m.empty()) bad("size", sim::fmt("size() is %d instead of %zu", q.size(), m.size())); for(size_t j = 0; j < mx; ++j) { if(q.contains(int(j)) != (m.count(int(j)) > 0)) bad("contains", sim::fmt("contains(%zu) is wrong", j)); if(known[j] && q.priority(int(j)) != last[j]) bad("priority", sim::fmt("priority(%zu) is %g instead of %g", j, q.priority(int(j)), last[j])); }
      if(!m.empty()) { int t = q.top(); if(!m.count(t)) bad("top", sim::fmt("top() is %d, which is not in the queue", t)); for(std::map<int, double>::iterator it = m.begin(); it != m.end(); ++it) if(lt(it->second, m[t])) bad("top", sim::fmt("top() is %d with priority %g, but %d has %g", t, m[t], it->first, it->second)); if(q.topPriority() != m[t]) bad("top-priority", "topPriority() is wrong"); sim::hashInt(uint64_t(t)); sim::nontrivial(); } }
   sim::Lib l; while(!p->empty()) { int t = p->top(); sim::Harness h; for(std::map<int, double>::iterator it = m.begin(); it != m.end(); ++it) if(lt(it->second, m[t])) bad("order", "elements come out in the wrong order"); p->pop(); m.erase(t); } p.reset();
}
void fifo() {
   typedef opengm::FiFoQueue<int> Q; N = "fifo"; size_t mx = 1 + sim::choose(20), pushed = 0; std::unique_ptr<Q> p; { Q* q = 0; if(op("construct", [&] { q = new Q(mx); })) return; p.reset(q); } std::vector<int> m;
   for(uint64_t k = 2 + sim::choose(40); k > 0; --k) { int x = int(sim::choose(100)); switch(sim::choose(5)) { case 0: case 1: if(pushed < mx) { op("push", [&] { p->push(x); }); m.push_back(x); ++pushed; } break; case 2: case 3: if(!m.empty()) { op("pop", [&] { p->pop(); }); m.erase(m.begin()); } break; default: if(sim::choose(5) == 4) { op("clear", [&] { p->clear(); }); m.clear(); pushed = 0; } }
      if(p->size() != m.size() || p->empty() != m.empty()) bad("size", "size() is wrong"); if(!m.empty()) { if(p->front() != m[0]) bad("front", "front() is wrong"); sim::nontrivial(); } sim::hashInt(p->size()); }
   sim::Lib l; p.reset();
}
template<class S> void seq(const char* name) { N = name; Seqs<S>().run(); }
template<class K, class C> void rset(const char* name) { N = name; Sets<K, C>().run(); }
void run() {
   static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; sim::Alloc::junk(junk[sim::choose(4)]); uint64_t k = sim::choose(14); long before = Cell::alive;
   static const char* names[] = { "BufferVector<int>", "BufferVector<Cell>", "FastSequence<int,5>", "FastSequence<Cell,5>", "FastSequence<Cell,2>", "RandomAccessSet<int,less>", "RandomAccessSet<int,greater>", "RandomAccessSet<Cell,less>", "Partition", "disjoint_set", "ChangeablePriorityQueue<less>", "ChangeablePriorityQueue<greater>", "FiFoQueue", "BufferVector<Cell>" };
   sim::sample("%s", names[k]); N = names[k]; N.reserve(200); sim::count((std::string("container.") + names[k]).c_str());
   sim::Alloc::track(true);
   switch(k) {
   case 0: seq<opengm::BufferVector<int> >("BufferVector<int>"); break; case 1: case 13: seq<opengm::BufferVector<Cell> >("BufferVector<Cell>"); break;
   case 2: seq<opengm::FastSequence<int, 5> >("FastSequence<int,5>"); break; case 3: seq<opengm::FastSequence<Cell, 5> >("FastSequence<Cell,5>"); break; case 4: seq<opengm::FastSequence<Cell, 2> >("FastSequence<Cell,2>"); break;
   case 5: rset<int, std::less<int> >("RandomAccessSet<int,less>"); break; case 6: rset<int, std::greater<int> >("RandomAccessSet<int,greater>"); break; case 7: rset<Cell, std::less<Cell> >("RandomAccessSet<Cell,less>"); break;
   case 8: partition(); break; case 9: disjoint(); break; case 10: priority<std::less<double> >("ChangeablePriorityQueue<less>"); break; case 11: priority<std::greater<double> >("ChangeablePriorityQueue<greater>"); break; default: fifo(); }
   size_t live = sim::Alloc::live(), bytes = sim::Alloc::liveBytes(); sim::Alloc::track(false);
   if(live) bad("leak", sim::fmt("%zu blocks (%zu bytes) are still allocated after the containers were destroyed", live, bytes));
   if(Cell::alive != before) bad("element-leak", sim::fmt("%ld elements were constructed but not destroyed", Cell::alive - before));
   sim::interleaving(sim::traceHash());
}
sim::Register reg("P23", run);
}
