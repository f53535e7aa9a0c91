// P05/P06/P07/P26: model construction histories, failing operations, independence of copies, structure queries.
#include "gm.hpp"
#include <list>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
namespace {
using namespace sim;
// ------------------------------------------------ a user-defined function type whose copies may fail or be interleaved
struct UserFault { int id; };
struct CopyHook { virtual ~CopyHook() {} virtual void onCopy() = 0; virtual void onEval() = 0; };
CopyHook* hook = 0;
template<class T, class I, class L> class UserTable : public opengm::FunctionBase<UserTable<T, I, L>, T, I, L> {
public:
   typedef T ValueType; typedef T value_type; typedef I IndexType; typedef L LabelType;
   UserTable() {}
   UserTable(const std::vector<size_t>& s, const std::vector<double>& t) : shape_(s), t_(t.begin(), t.end()) {}
   UserTable(const UserTable& o) : opengm::FunctionBase<UserTable<T, I, L>, T, I, L>() { if(hook) hook->onCopy(); shape_ = o.shape_; t_ = o.t_; }
   UserTable& operator=(const UserTable& o) { UserTable c(o); shape_.swap(c.shape_); t_.swap(c.t_); return *this; }
   size_t shape(size_t i) const { return shape_[i]; }
   size_t size() const { return t_.size(); }
   size_t dimension() const { return shape_.size(); }
   template<class It> T operator()(It it) const { size_t o = 0, st = 1; for(size_t i = 0; i < shape_.size(); ++i, ++it) { o += size_t(*it) * st; st *= shape_[i]; } if(hook) hook->onEval(); if(o >= t_.size()) violation("label-out-of-range", "a user function was evaluated with an out-of-range label"); return t_[o]; }
private:
   std::vector<size_t> shape_; std::vector<T> t_;
};
}
namespace opengm { template<class T, class I, class L> struct FunctionRegistration<UserTable<T, I, L> > { enum ID { Id = opengm::FUNCTION_TYPE_ID_OFFSET + 9001 }; }; }
namespace {
enum { User = ref::NKinds };
template<class T, class I, class L> struct TL {
   typedef opengm::ExplicitFunction<T, I, L> E; typedef opengm::PottsFunction<T, I, L> P; typedef opengm::PottsNFunction<T, I, L> PN; typedef opengm::PottsGFunction<T, I, L> PG;
   typedef opengm::AbsoluteDifferenceFunction<T, I, L> A; typedef opengm::SquaredDifferenceFunction<T, I, L> S; typedef opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> TA; typedef opengm::TruncatedSquaredDifferenceFunction<T, I, L> TS;
   typedef opengm::SparseFunction<T, I, L, std::map<size_t, T> > SP; typedef opengm::ConstantFunction<T, I, L> C; typedef UserTable<T, I, L> U;
   typedef typename opengm::meta::TypeListGenerator<E, P, PN, PG, A, S, TA, TS, SP, C, U>::type a;
   typedef typename opengm::meta::TypeListGenerator<U, C, SP, TS, P, E, S, PN, A, PG, TA>::type b;
   typedef typename opengm::meta::TypeListGenerator<P, U, E>::type c;
};
typedef TL<double, size_t, size_t> T1; typedef TL<float, unsigned, unsigned char> T2;
typedef opengm::DiscreteSpace<size_t, size_t> D1;
typedef opengm::GraphicalModel<double, opengm::Adder, T1::a, D1> G1;
typedef opengm::GraphicalModel<double, opengm::Adder, T1::b, D1> G2;
typedef opengm::GraphicalModel<double, opengm::Adder, T1::c, D1> G3;
typedef opengm::GraphicalModel<float, opengm::Adder, T2::a, opengm::DiscreteSpace<unsigned, unsigned char> > G4;
typedef opengm::GraphicalModel<double, opengm::Multiplier, T1::a, opengm::SimpleDiscreteSpace<size_t, size_t> > G5;
// kinds a model type supports
template<class GM> struct Kinds { enum { few = 0 }; };
template<> struct Kinds<G3> { enum { few = 1 }; };
template<class GM> bool supports(int k) { return !Kinds<GM>::few || k == ref::Explicit || k == ref::Potts || k == User; }
// calls act(function object of the right type)
template<class GM, bool FEW> struct With { template<class A> static void go(const ref::Function& r, A& act) {
   if(r.kind == User) { UserTable<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> u(r.shape, r.t); act(u); } else gmx::withFunction<GM>(r, act); } };
template<class GM> struct With<GM, true> { template<class A> static void go(const ref::Function& r, A& act) { typedef gmx::Fn<GM> N;
   if(r.kind == User) { UserTable<typename GM::ValueType, typename GM::IndexType, typename GM::LabelType> u(r.shape, r.t); act(u); }
   else if(r.kind == ref::Potts && !r.shape.empty()) { typename N::Potts f(r.shape[0], r.shape[1], r.p[0], r.p[1]); act(f); } else { typename N::Explicit f = gmx::makeExplicit<typename N::Explicit>(r); act(f); } } };
// ------------------------------------------------ faults
struct Faults : CopyHook {
   bool on; long copyAt, copies; bool fired, yield;
   Faults() : on(false), copyAt(-1), copies(0), fired(false), yield(false) { hook = this; } ~Faults() { hook = 0; }
   void onCopy() { if(yield) { yieldPoint(); return; } if(copyAt >= 0 && copies++ == copyAt) { fired = true; count("fault.function-copy-throws"); throw UserFault{ 1 }; } }
   void onEval() { if(yield) yieldPoint(); }
};
struct Result { bool fired, threw; std::string what; Result() : fired(false), threw(false) {} };
template<class F> Result guarded(Faults& fl, bool arm, F f) {
   Result r; uint64_t kind = arm ? choose(3) : 0; fl.fired = false; fl.copies = 0;
   if(kind == 1) Alloc::failAt(long(choose(1u << choose(6)))); if(kind == 2) fl.copyAt = long(choose(1u << choose(4)));
   try { Lib l; f(); } catch(UserFault&) { r.threw = true; r.what = "UserFault"; } catch(std::bad_alloc&) { r.threw = true; r.what = "bad_alloc"; } catch(std::exception& e) { r.threw = true; r.what = e.what(); } catch(...) { r.threw = true; r.what = "?"; }
   r.fired = fl.fired; if(kind == 1) { if(Alloc::fired()) { r.fired = true; count("fault.alloc-fails"); } Alloc::failAt(-1); } fl.copyAt = -1;
   return r;
}
// ------------------------------------------------ a model with its reference
template<class GM> struct Id { typename GM::FunctionIdentifier id; bool known; };
template<class GM> struct M {
   typedef typename GM::FunctionIdentifier Fid; typedef typename GM::IndexType I; typedef typename GM::LabelType L;
   std::unique_ptr<GM> gm; ref::Model m; std::vector<Fid> id; std::vector<char> known, fin; bool adj, ok; std::vector<size_t> nf;
   M() : adj(true), ok(true) { gm.reset(new GM()); m.mul = opengm::meta::Compare<typename GM::OperatorType, opengm::Multiplier>::value; nf.assign(size_t(GM::NrOfFunctionTypes), 0); }
   const char* name() const { return m.mul ? "mul" : sizeof(typename GM::ValueType) == 4 ? "float" : Kinds<GM>::few ? "few" : "add"; }
   // the reference state of another model (same or other type list)
   template<class G> void adopt(const M<G>& s) { m = s.m; fin = s.fin; adj = s.adj; ok = s.ok; known.assign(m.fn.size(), 0); id.assign(m.fn.size(), Fid()); }
   void adopt(const M<GM>& s) { m = s.m; fin = s.fin; adj = s.adj; ok = s.ok; known = s.known; id = s.id; nf = s.nf; }
   void learn() { for(size_t f = 0; f < m.F.size(); ++f) { size_t k = m.F[f].fn; Fid i((*gm)[f].functionIndex(), (*gm)[f].functionType()); if(known[k] && !(id[k] == i)) violation(std::string("id:") + name(), "factors of one function refer to different functions"); known[k] = 1; id[k] = i; } counts(); }
   void counts() { for(size_t t = 0; t < nf.size(); ++t) nf[t] = gm->numberOfFunctions(t); }
   void clear() { m.L.clear(); m.F.clear(); m.fn.clear(); id.clear(); known.clear(); fin.clear(); adj = ok = true; nf.assign(nf.size(), 0); }
};
// random access iterators over small sequences: every way to reach an element yields it
template<class IT> std::string scan(const IT b, const IT e, const std::vector<size_t>& w) {
   if(size_t(e - b) != w.size()) return fmt("the distance is %zu instead of %zu", size_t(e - b), w.size());
   for(size_t i = 0; i < w.size(); ++i) { const IT c = b + i; IT m = c; IT back = e - (w.size() - i); IT pp = b; pp += i; IT mm = e; mm -= w.size() - i;
      if(size_t(*c) != w[i] || size_t(*m) != w[i] || size_t(*back) != w[i] || size_t(b[i]) != w[i] || size_t(*pp) != w[i] || size_t(*mm) != w[i] || size_t(m[0]) != w[i] || !(c == back) || c != pp || !(c < e) || !(c >= b) || !(c <= mm) || c > mm) return fmt("position %zu is wrong", i);
      IT n = m; if(n++ != c || n != b + (i + 1) || --n != c) return fmt("stepping at position %zu is wrong", i); if(i) { IT p = m; if(p-- != c || size_t(*p) != w[i - 1]) return fmt("stepping back from position %zu is wrong", i); } }
   return std::string();
}
template<class GM> std::string factors(const GM& gm, const ref::Model& m) {
   Harness h; typedef typename GM::ValueType V;
   for(size_t f = 0; f < m.F.size(); ++f) { const ref::Function& fn = m.fn[m.F[f].fn]; if(fn.size() > 64) continue; const std::vector<size_t>& v = m.F[f].v;
      std::vector<V> t(fn.size()); gm[f].copyValues(t.begin()); for(size_t i = 0; i < t.size(); ++i) if(!gmx::same(t[i], V(fn.t[i]))) return fmt("factor %zu: copyValues yields %g at %zu, expected %g", f, double(t[i]), i, fn.t[i]);
      if(v.size()) { std::vector<V> s(fn.size()); gm[f].copyValuesSwitchedOrder(s.begin()); ref::Lab l(v.size(), 0); std::vector<size_t> rs(fn.shape.rbegin(), fn.shape.rend()); size_t k = 0; do { ref::Lab q(l.rbegin(), l.rend()); if(!gmx::same(s[k], V(fn.at(q)))) return fmt("factor %zu: copyValuesSwitchedOrder yields %g at %zu, expected %g", f, double(s[k]), k, fn.at(q)); ++k; } while(ref::next(l, rs)); }
      double mi = *std::min_element(fn.t.begin(), fn.t.end()), ma = *std::max_element(fn.t.begin(), fn.t.end()), su = 0; for(size_t i = 0; i < fn.t.size(); ++i) su += fn.t[i];
      if(gm[f].min() != V(mi) || gm[f].max() != V(ma)) return fmt("factor %zu (%s): min/max are %g/%g, expected %g/%g", f, fn.kind == User ? "user" : ref::kindName(fn.kind), double(gm[f].min()), double(gm[f].max()), mi, ma);
      if(std::fabs(double(gm[f].sum()) - su) > 1e-4 * (1 + std::fabs(su))) return fmt("factor %zu: sum is %g, expected %g", f, double(gm[f].sum()), su);
      size_t i = 0; for(typename GM::FactorType::VariablesIteratorType it = gm[f].variableIndicesBegin(); it != gm[f].variableIndicesEnd(); ++it, ++i) if(i >= v.size() || *it != v[i]) return fmt("factor %zu: variableIndices are wrong", f); if(i != v.size()) return fmt("factor %zu: variableIndices are too short", f);
      i = 0; for(typename GM::FactorType::ShapeIteratorType it = gm[f].shapeBegin(); it != gm[f].shapeEnd(); ++it, ++i) if(i >= v.size() || *it != fn.shape[i]) return fmt("factor %zu: the shape is wrong", f); if(i != v.size()) return fmt("factor %zu: the shape is too short", f);
      std::string e = scan(gm[f].variableIndicesBegin(), gm[f].variableIndicesEnd(), v); if(e.empty()) e = scan(gm[f].shapeBegin(), gm[f].shapeEnd(), fn.shape); if(!e.empty()) return fmt("factor %zu: iterators: %s", f, e.c_str());
   }
   return std::string();
}
// function identifiers can be used as keys
template<class GM> std::string order(M<GM>& s) {
   std::vector<typename GM::FunctionIdentifier> u; std::vector<size_t> w; for(size_t i = 0; i < s.id.size(); ++i) if(s.known[i]) { u.push_back(s.id[i]); w.push_back(i); } size_t n = std::min<size_t>(u.size(), 8);
   for(size_t a = 0; a < n; ++a) for(size_t b = 0; b < n; ++b) { bool lt = u[a] < u[b], gt = u[a] > u[b], eq = u[a] == u[b]; if(lt + gt + eq != 1 || (u[a] <= u[b]) != (lt || eq) || (u[a] >= u[b]) != (gt || eq) || lt != (u[b] > u[a]) || eq != (a == b)) return fmt("identifiers of functions %zu and %zu are not ordered", w[a], w[b]); for(size_t c = 0; c < n; ++c) if(lt && u[b] < u[c] && !(u[a] < u[c])) return "the order of function identifiers is not transitive"; }
   return std::string();
}
template<class GM> std::string wrong(M<GM>& s, bool deep) {
   if(!s.ok) return std::string(); std::string e = gmx::compare(*s.gm, s.m, deep ? 8 : 3, true, s.adj ? &s.fin : 0, s.adj); if(!e.empty()) return e;
   Harness h; size_t ml = 0; for(size_t i = 0; i < s.m.L.size(); ++i) ml = std::max(ml, s.m.L[i]); if(s.gm->maxNumberOfLabels() != ml) return fmt("maxNumberOfLabels()=%zu, expected %zu", size_t(s.gm->maxNumberOfLabels()), ml);
   for(size_t t = 0; t < s.nf.size(); ++t) if(s.gm->numberOfFunctions(t) != s.nf[t]) return fmt("numberOfFunctions(%zu)=%zu, expected %zu", t, size_t(s.gm->numberOfFunctions(t)), s.nf[t]);
   if(s.gm->space().numberOfVariables() != s.m.L.size()) return "space().numberOfVariables() is wrong";
   std::vector<size_t> q; for(uint64_t k = choose(4); k > 0; --k) q.push_back(size_t(choose(s.m.L.size() + 2))); bool good = true; for(size_t i = 0; i < q.size(); ++i) if(q[i] >= s.m.L.size() || (i && q[i] <= q[i - 1])) good = false;
   if(s.gm->isValidIndexSequence(q.begin(), q.end()) != good) return fmt("isValidIndexSequence() is %d for a sequence of %zu indices", int(!good), q.size());
   if(deep) { e = factors(*s.gm, s.m); if(!e.empty()) return e; e = order(s); if(!e.empty()) return e; }
   hashInt(s.m.F.size()); hashInt(s.m.fn.size()); return e;
}
template<class GM> void expect(M<GM>& s, const char* what, const std::string& op, bool deep = true) { std::string e = wrong(s, deep); if(!e.empty()) violation(std::string(what) + ":" + s.name(), "after %s: %s", op.c_str(), e.c_str()); }
// ------------------------------------------------ drawing
template<class GM> ref::Function drawFunction(const M<GM>& s, const std::vector<size_t>& shape) {
   ref::GenOpt o; o.allKinds = !s.m.mul; ref::Function f; uint64_t u = choose(6);
   if(u == 5) o.allKinds = false; f = ref::genFunction(o, shape); if(s.m.mul) { f.kind = ref::Explicit; for(size_t i = 0; i < f.t.size(); ++i) f.t[i] = std::ldexp(1.0, int(choose(5)) - 2); }
   if(f.shape.empty()) f.kind = ref::Explicit; if(u == 5) f.kind = User; if(!supports<GM>(f.kind)) f.kind = ref::Explicit; return f;
}
template<class GM> std::vector<size_t> drawVars(const M<GM>& s, size_t maxOrder) {
   size_t n = s.m.L.size(); std::vector<size_t> all(n), v; for(size_t i = 0; i < n; ++i) all[i] = i; size_t k = choose(std::min(n, maxOrder) + 1);
   for(size_t j = 0; j < k; ++j) { size_t c = choose(all.size()); v.push_back(all[c]); all.erase(all.begin() + c); } std::sort(v.begin(), v.end()); return v;
}
inline std::string show(const std::vector<size_t>& v) { std::string s = "("; for(size_t i = 0; i < v.size(); ++i) s += fmt(i ? ",%zu" : "%zu", v[i]); return s + ")"; }
template<class GM> std::vector<size_t> shapeOf(const M<GM>& s, const std::vector<size_t>& v) { std::vector<size_t> r; for(size_t i = 0; i < v.size(); ++i) r.push_back(s.m.L[v[i]]); return r; }
inline bool sameFn(const ref::Function& a, const ref::Function& b) { return a.kind == b.kind && a.shape == b.shape && a.p == b.p && a.t == b.t; }
inline bool sameTable(const ref::Function& a, const ref::Function& b) { return a.kind == b.kind && a.shape == b.shape && a.t == b.t; }
// ------------------------------------------------ operations
template<class GM> struct Ops {
   typedef M<GM> S; typedef typename S::Fid Fid; Faults& fl; bool faults; std::string last;
   Ops(Faults& f, bool b) : fl(f), faults(b) {}
   void bad(S& s, const char* sig, const std::string& msg) { violation(std::string(sig) + ":" + s.name(), "%s: %s", last.c_str(), msg.c_str()); }
   // runs f, possibly under a fault; true if it took effect. After a failure the model must be as before.
   template<class F> bool attempt(S& s, const std::string& n, F f) {
      last = n; where((std::string(s.name()) + ":" + n.substr(0, n.find('('))).c_str()); ev("%s", n.c_str());
      bool arm = faults && choose(2); Result r = guarded(fl, arm, f); where("");
      if(!r.threw && r.fired) bad(s, "swallowed", "a failure inside was not reported"); if(!r.threw) return true;
      if(!r.fired) bad(s, "phantom", "threw " + r.what + " for no reason");
      count("history.failed-operation"); nontrivial(); expect(s, "changed", last + " that failed with " + r.what); // unchanged
      if(choose(4) == 0) return false;
      r = guarded(fl, false, f); last += " (repeated)"; if(r.threw) bad(s, "repeat", "threw " + r.what); count("history.repeated"); return true;
   }
   template<class F> void rejected(S& s, const std::string& n, F f) {
      last = n; where((std::string(s.name()) + ":" + n.substr(0, n.find('('))).c_str()); ev("%s", n.c_str()); Result r = guarded(fl, faults && choose(2), f); where("");
      if(!r.threw) bad(s, "accepted", "invalid arguments were accepted"); count("fault.invalid-arguments"); nontrivial(); expect(s, "changed", last);
   }
   void addVariable(S& s) { size_t l = s.m.L.empty() || !s.m.mul ? 1 + choose(4) : s.m.L[0]; size_t got = 0;
      if(s.m.mul && s.m.L.empty()) { GM* g = s.gm.get(); last = "assign(space)"; ref::Model one; one.L.push_back(l); typename GM::SpaceType sp = gmx::makeSpace<GM>(one, static_cast<const typename GM::SpaceType*>(0)); Lib lib; g->assign(sp); s.clear(); s.m.L.push_back(l); return; }
      if(attempt(s, fmt("addVariable(%zu)", l), [&] { got = s.gm->addVariable(l); })) { if(got != s.m.L.size()) bad(s, "index", fmt("returned %zu instead of %zu", got, s.m.L.size())); s.m.L.push_back(l); } }
   struct Add { GM& gm; int how; Fid id; ref::Function* again; bool done; Ops& o; S& s; std::string n;
      Add(GM& g, int h, Ops& q, S& t) : gm(g), how(h), again(0), done(false), o(q), s(t) {}
      template<class F> struct Again { F* f; template<class G> void operator()(const G&) {} void operator()(const F& x) { *f = x; } };
      template<class F> void operator()(const F& f) {
         F* ref = 0; done = o.attempt(s, n, [&] { if(how == 0) id = gm.addFunction(f); else if(how == 1) id = gm.addSharedFunction(f); else { std::pair<Fid, F&> p = gm.addFunctionWithRefReturn(f); id = p.first; ref = &p.second; } });
         if(done && again) { Again<F> a; a.f = ref; Lib l; With<GM, Kinds<GM>::few>::go(*again, a); } } };
   static int type(S& s, const std::vector<size_t>& before) { int t = -1; for(size_t i = 0; i < before.size(); ++i) if(s.gm->numberOfFunctions(i) != before[i]) t = t < 0 && s.gm->numberOfFunctions(i) == before[i] + 1 ? int(i) : 99; return t; }
   int addFunction(S& s, const ref::Function& f, int how) { // returns the index in the reference, or -1
      Add a(*s.gm, how, *this, s); ref::Function g = f; if(how == 2 && choose(2) == 0) { g = ref::genFunction(ref::GenOpt(), f.shape); g.kind = f.kind; if(f.kind != ref::Explicit && f.kind != User) g = f; if(s.m.mul) g = f; a.again = &g; }
      a.n = fmt("%s(%s %s)", how == 0 ? "addFunction" : how == 1 ? "addSharedFunction" : "addFunctionWithRefReturn", f.kind == User ? "user" : ref::kindName(f.kind), show(f.shape).c_str());
      std::vector<size_t> nf(s.nf); With<GM, Kinds<GM>::few>::go(f, a); if(!a.done) return -1;
      int t = type(s, nf); int same = -1; bool unknown = false; for(size_t i = 0; i < s.m.fn.size(); ++i) { if(s.known[i] && s.id[i] == a.id) same = int(i); if(!s.known[i] && sameTable(s.m.fn[i], f)) unknown = true; }
      if(t == 99) bad(s, "functions", "more than one function was added"); if(t >= 0) s.nf[t]++;
      if(how == 1) for(size_t i = 0; i < s.m.fn.size(); ++i) if(s.known[i] && sameFn(s.m.fn[i], f) && t >= 0) bad(s, "not-shared", fmt("the same function was added before (number %zu), but it was not shared", i));
      if(same >= 0) { if(how != 1) bad(s, "id", fmt("returned the identifier of function %d", same)); if(t >= 0) bad(s, "id", "returned an old identifier but added a function"); if(!sameTable(s.m.fn[same], f)) bad(s, "wrongly-shared", fmt("returned function %d (%s), which is another one", same, ref::kindName(s.m.fn[same].kind % ref::NKinds))); count("probe.shared"); return same; }
      if(t < 0) { if(how == 1 && unknown) { for(size_t i = 0; i < s.m.fn.size(); ++i) if(!s.known[i] && sameTable(s.m.fn[i], f)) { s.m.fn.push_back(s.m.fn[i]); s.id.push_back(a.id); s.known.push_back(0); return -1; } } bad(s, "functions", "no function was added"); }
      if(a.id.getFunctionType() != size_t(t)) bad(s, "id", fmt("the identifier has function type %zu, but a function of type %d was added", size_t(a.id.getFunctionType()), t));
      s.m.fn.push_back(how == 2 ? g : f); s.id.push_back(a.id); s.known.push_back(1); return int(s.m.fn.size() - 1);
   }
   void addFactor(S& s, size_t fn, const std::vector<size_t>& v, bool late) {
      std::vector<typename S::I> w(v.begin(), v.end()); std::list<typename S::I> li(v.begin(), v.end()); Fid id = s.id[fn]; bool asList = choose(4) == 3; size_t got = 0; long alias = -1; if(!asList && choose(3) == 2) for(size_t f = 0; f < s.m.F.size(); ++f) if(s.m.F[f].v == v) alias = long(f);
      if(attempt(s, fmt("addFactor%s%s", late ? "NonFinalized" : "", show(v).c_str()), [&] { GM& g = *s.gm;
         if(alias >= 0) got = late ? g.addFactorNonFinalized(id, g[alias].variableIndicesBegin(), g[alias].variableIndicesEnd()) : g.addFactor(id, g[alias].variableIndicesBegin(), g[alias].variableIndicesEnd());
         else if(asList) got = late ? g.addFactorNonFinalized(id, li.begin(), li.end()) : g.addFactor(id, li.begin(), li.end()); else got = late ? g.addFactorNonFinalized(id, w.begin(), w.end()) : g.addFactor(id, w.begin(), w.end()); })) {
         if(got != s.m.F.size()) bad(s, "index", fmt("returned %zu instead of %zu", got, s.m.F.size())); ref::Factor q; q.v = v; q.fn = fn; s.m.F.push_back(q); s.fin.push_back(!late); } }
   void invalid(S& s) {
      if(s.m.fn.empty()) return; size_t fn = choose(s.m.fn.size()), n = s.m.L.size(); if(!s.known[fn]) return; std::vector<typename S::I> w; size_t order = 1 + choose(4); for(size_t i = 0; i < order; ++i) w.push_back(typename S::I(choose(n + 1))); uint64_t h = choose(3);
      if(h == 0 && w.size() > 1 && n) { std::sort(w.begin(), w.end()); std::reverse(w.begin(), w.end()); } else if(h == 1) { std::sort(w.begin(), w.end()); w.back() = typename S::I(n + choose(3)); } else if(w.size() > 1) w[1] = w[0]; else w[0] = typename S::I(n);
      std::vector<size_t> q(w.begin(), w.end()); bool good = true; for(size_t i = 0; i < q.size(); ++i) if(q[i] >= n || (i && q[i] <= q[i - 1])) good = false; if(good) return; Fid id = s.id[fn]; bool late = choose(2);
      rejected(s, fmt("addFactor%s%s", late ? "NonFinalized" : "", show(q).c_str()), [&] { if(late) s.gm->addFactorNonFinalized(id, w.begin(), w.end()); else s.gm->addFactor(id, w.begin(), w.end()); }); }
   struct Mutate { GM& gm; Fid id; bool cells; const ref::Function& g; Mutate(GM& q, Fid i, const ref::Function& x) : gm(q), id(i), cells(false), g(x) {} template<class F> void operator()(const F& f) { gm.template getFunction<F>(id) = f; } };
   void mutate(S& s) { if(s.m.fn.empty()) return; size_t k = choose(s.m.fn.size()); if(!s.known[k]) return; ref::Function& old = s.m.fn[k]; ref::Function f = old;
      if(s.m.mul || old.kind == User || old.kind == ref::Explicit) { for(size_t i = 0; i < f.t.size(); ++i) if(choose(2)) f.t[i] = s.m.mul ? std::ldexp(1.0, int(choose(5)) - 2) : double(choose(33)) / 4 - 4; f.p.clear(); }
      else for(int i = 0; i < 6 && !(f.kind == old.kind && i); ++i) { ref::GenOpt o; o.allKinds = true; f = ref::genFunction(o, old.shape); } if(f.kind != old.kind) return;
      last = fmt("getFunction(%zu) = ...", k); ev("%s", last.c_str()); Mutate a(*s.gm, s.id[k], f); { Lib l; With<GM, Kinds<GM>::few>::go(f, a); } old = f; count("probe.mutated"); }
   void finalize(S& s) { last = "finalize()"; ev("finalize"); where("finalize"); Result r = guarded(fl, faults && choose(2), [&] { s.gm->finalize(); }); if(r.threw) { if(!r.fired) bad(s, "phantom", "threw " + r.what); bool a = s.adj; s.adj = false; expect(s, "changed", "finalize() that failed"); s.adj = a && false; if(choose(2)) return; guarded(fl, false, [&] { s.gm->finalize(); }); } else if(r.fired) bad(s, "swallowed", "a failure inside was not reported"); s.adj = true; s.fin.assign(s.m.F.size(), 1); count("probe.finalized"); }
   void reserve(S& s) { uint64_t h = choose(3), n = choose(20); attempt(s, fmt("reserve%d(%d)", int(h), int(n)), [&] { if(h == 0) s.gm->reserveFactors(n); else if(h == 1) s.gm->reserveFactorsVarialbeIndices(n); else s.gm->template reserveFunctions<typename gmx::Fn<GM>::Explicit>(n); }); }
   void fresh(S& s) { uint64_t h = choose(3); size_t n = choose(5); std::vector<size_t> L; size_t u = 1 + choose(4); for(size_t i = 0; i < n; ++i) L.push_back(s.m.mul ? u : 1 + choose(4)); std::unique_ptr<GM> g; ref::Model rm; rm.L = L; if(s.m.mul && L.empty()) return;
      Result r; last = h == 2 ? "constructor()" : h ? fmt("assign(%s)", show(L).c_str()) : fmt("constructor%s", show(L).c_str()); ev("%s", last.c_str()); typename GM::SpaceType sp = gmx::makeSpace<GM>(rm, static_cast<const typename GM::SpaceType*>(0)); size_t res = choose(4);
      auto f = [&] { if(h == 0) g.reset(new GM(sp, res)); else if(h == 1) s.gm->assign(sp); else g.reset(new GM()); };
      r = guarded(fl, faults && choose(2), f); if(r.threw) { if(!r.fired) bad(s, "phantom", "threw " + r.what); if(h == 1) s.ok = false; expect(s, "changed", last); r = guarded(fl, false, f); if(r.threw) bad(s, "repeat", "threw " + r.what); }
      if(g.get()) s.gm = std::move(g); s.clear(); if(h != 2) s.m.L = L; count("probe.fresh"); }
   // d becomes a copy of s
   void copy(S& d, S& s) { uint64_t h = choose(3); last = h == 0 ? "copy constructor" : h == 1 ? "operator=" : "self-assignment"; ev("%s", last.c_str()); where(last.c_str()); std::unique_ptr<GM> g; auto f = [&] { if(h == 0) g.reset(new GM(*s.gm)); else if(h == 1) *d.gm = *s.gm; else *s.gm = *s.gm; };
      Result r = guarded(fl, faults && choose(2), f);
      if(r.threw) { if(!r.fired) bad(s, "phantom", "threw " + r.what); count("history.failed-operation"); expect(s, "source", last + " that failed"); if(h == 1) d.ok = false; if(h == 0) expect(d, "bystander", last + " that failed"); if(choose(3) == 0) { if(h == 1) redo(d); return; } r = guarded(fl, false, f); if(r.threw) bad(s, "repeat", "threw " + r.what); } else if(r.fired) bad(s, "swallowed", "a failure inside was not reported");
      if(h == 0) d.gm = std::move(g); if(h != 2) d.adopt(s); count("probe.copied"); expect(d, "copy", last); expect(s, "source", last); nontrivial(); }
   void redo(S& d) { std::unique_ptr<GM> g; if(choose(2)) { d.gm.reset(new GM()); d.clear(); } else { GM e; *d.gm = e; d.clear(); } expect(d, "reassigned", "assigning an empty model to a model whose assignment failed"); }
   void step(S& s) {
      uint64_t op = choose(12); size_t n = s.m.L.size();
      if(op <= 2 || n == 0) { if(n < 7) addVariable(s); }
      if(op <= 6) { std::vector<size_t> v = drawVars(s, 4); std::vector<size_t> shape = shapeOf(s, v); int fn = -1; std::vector<int> c; for(size_t i = 0; i < s.m.fn.size(); ++i) if(s.known[i] && s.m.fn[i].shape == shape) c.push_back(int(i)); uint64_t h = choose(5); size_t tot = 1; for(size_t i = 0; i < shape.size(); ++i) tot *= shape[i]; if(tot > 300) return;
         if(h >= 3 && !c.empty()) fn = c[choose(c.size())]; else { ref::Function f; if(!c.empty() && choose(3) == 2) { f = s.m.fn[c[choose(c.size())]]; h = choose(2); } else f = drawFunction(s, shape); fn = addFunction(s, f, int(h % 3)); if(fn < 0) return; }
         if(op >= 2) addFactor(s, size_t(fn), v, choose(4) == 3); }
      else if(op == 7) mutate(s); else if(op == 8) { if(choose(2)) finalize(s); else reserve(s); }
      else if(op == 9) { if(faults) invalid(s); }
      else if(op == 10) { if(s.m.mul && n && faults) { size_t l = s.m.L[0] + 1; rejected(s, fmt("addVariable(%zu)", l), [&] { s.gm->addVariable(l); }); } else if(choose(4) == 3) fresh(s); }
   }
};
// conversion between type lists; sel: 0 keep the result in d
template<class D, class S> void convert(Faults& fl, bool faults, M<D>& d, M<S>& s) {
   bool can = true; for(size_t i = 0; i < s.m.fn.size(); ++i) if(!supports<D>(s.m.fn[i].kind)) can = false;
   std::string last = fmt("conversion %s -> %s", s.name(), d.name()); ev("%s%s", last.c_str(), can ? "" : " (impossible)"); where("conversion"); auto f = [&] { *d.gm = *s.gm; };
   Result r = guarded(fl, faults && choose(2), f);
   if(r.threw) { expect(s, "source", last + " that failed"); d.ok = false; if(!can) { count("fault.invalid-arguments"); Ops<D> o(fl, false); o.redo(d); return; } if(!r.fired) violation("phantom:conversion", "%s threw %s", last.c_str(), r.what.c_str()); count("history.failed-operation"); if(choose(3) == 0) { Ops<D> o(fl, false); o.redo(d); return; } r = guarded(fl, false, f); if(r.threw) violation("repeat:conversion", "repeated %s threw %s", last.c_str(), r.what.c_str()); }
   else { if(r.fired) violation("swallowed:conversion", "a failure inside a conversion was not reported"); if(!can) violation("accepted:conversion", "a model with functions that the target type lacks was converted"); }
   // functions of the target: exactly those of the source
   size_t have = 0; for(size_t t = 0; t < d.nf.size(); ++t) have += d.gm->numberOfFunctions(t); size_t want = 0; for(size_t t = 0; t < s.nf.size(); ++t) want += s.gm->numberOfFunctions(t);
   if(have != want) violation("conversion-functions", "after %s the target has %zu functions, the source %zu", last.c_str(), have, want);
   d.adopt(s); d.counts(); expect(d, "conversion", last); d.learn(); expect(s, "source", last); count("probe.converted"); nontrivial();
}
// ------------------------------------------------ structure queries
struct UF { std::vector<size_t> p; UF(size_t n) : p(n) { for(size_t i = 0; i < n; ++i) p[i] = i; } size_t root(size_t i) { while(p[i] != i) i = p[i]; return i; } bool join(size_t a, size_t b) { a = root(a); b = root(b); if(a == b) return false; p[a] = b; return true; } };
template<class GM> std::string structure(const GM& gm, const ref::Model& m) {
   typedef typename GM::IndexType I; Lib lib; size_t n = m.L.size(), nf = m.F.size(); const std::vector<ref::Factor>& F = m.F;
   std::vector<std::set<size_t> > va(n), fa(nf); std::vector<std::vector<size_t> > fv(n); bool par = false; std::set<std::pair<size_t, size_t> > pairs; UF bip(n + nf), vars(n); bool acyclic = true; size_t comp = n;
   { Harness h; for(size_t f = 0; f < nf; ++f) for(size_t j = 0; j < F[f].v.size(); ++j) { fv[F[f].v[j]].push_back(f); if(!bip.join(F[f].v[j], n + f)) acyclic = false; if(j && vars.join(F[f].v[j - 1], F[f].v[j])) --comp; for(size_t k = 0; k < F[f].v.size(); ++k) if(k != j) va[F[f].v[j]].insert(F[f].v[k]); }
     for(size_t i = 0; i < n; ++i) for(size_t a = 0; a < fv[i].size(); ++a) for(size_t b = 0; b < fv[i].size(); ++b) if(a != b) fa[fv[i][a]].insert(fv[i][b]);
     for(size_t f = 0; f < nf; ++f) if(F[f].v.size() == 2 && !pairs.insert(std::make_pair(F[f].v[0], F[f].v[1])).second) par = true; }
   where("isAcyclic"); if(gm.isAcyclic() != acyclic) return fmt("isAcyclic() is %d", int(!acyclic));
   where("isConnected"); { marray::Vector<size_t> rep; bool c = gm.isConnected(rep); if(c != (comp == 1 && n)) return fmt("isConnected() is %d for %zu components", int(c), comp); if(n) { if(rep.size() != comp) return fmt("isConnected(): %zu representatives of %zu components", size_t(rep.size()), comp); std::set<size_t> roots; for(size_t i = 0; i < rep.size(); ++i) { if(rep(i) >= n) return "isConnected(): representative out of range"; roots.insert(vars.root(rep(i))); } if(roots.size() != comp) return "isConnected(): two representatives of one component"; } }
   where("connections"); for(size_t i = 0; i < n; ++i) { for(size_t j = 0; j < n; ++j) if(gm.variableVariableConnection(i, j) != (va[i].count(j) > 0)) return fmt("variableVariableConnection(%zu,%zu) is wrong", i, j);
      for(size_t f = 0; f < nf; ++f) { bool c = std::find(F[f].v.begin(), F[f].v.end(), i) != F[f].v.end(); if(gm.variableFactorConnection(i, f) != c || gm.factorVariableConnection(f, i) != c) return fmt("variableFactorConnection(%zu,%zu) is wrong", i, f); }
      size_t k = 0; for(typename GM::ConstFactorIterator it = gm.factorsOfVariableBegin(i); it != gm.factorsOfVariableEnd(i); ++it, ++k) if(k >= fv[i].size() || *it != fv[i][k]) return fmt("factorsOfVariable iterators of %zu are wrong", i); if(k != fv[i].size()) return fmt("factorsOfVariableEnd(%zu) comes too early", i); { std::string e = scan(gm.factorsOfVariableBegin(i), gm.factorsOfVariableEnd(i), fv[i]); if(!e.empty()) return fmt("factorsOfVariable iterators of %zu: ", i) + e; }
      for(size_t o = 0; o <= 4; ++o) { std::set<size_t> w; for(size_t k = 0; k < fv[i].size(); ++k) if(F[fv[i][k]].v.size() == o) w.insert(fv[i][k]); if(gm.numberOfNthOrderFactorsOfVariable(i, o) != w.size()) return fmt("numberOfNthOrderFactorsOfVariable(%zu,%zu) is wrong", i, o); marray::Vector<size_t> ids; if(w.empty()) continue; if(gm.numberOfNthOrderFactorsOfVariable(i, o, ids) != w.size() || ids.size() != w.size()) return fmt("numberOfNthOrderFactorsOfVariable(%zu,%zu,ids) is wrong", i, o); std::set<size_t> g; for(size_t k = 0; k < ids.size(); ++k) g.insert(ids(k)); if(g != w) return fmt("numberOfNthOrderFactorsOfVariable(%zu,%zu,ids) yields wrong factors", i, o); if(o == 2) for(std::set<size_t>::iterator q = w.begin(); q != w.end(); ++q) if(gm.secondVariableOfSecondOrderFactor(i, *q) != (F[*q].v[0] == i ? F[*q].v[1] : F[*q].v[0])) return fmt("secondVariableOfSecondOrderFactor(%zu,%zu) is wrong", i, *q); } }
   for(size_t f = 0; f < nf; ++f) { for(size_t g = 0; g < nf; ++g) if(gm.factorFactorConnection(f, g) != (fa[f].count(g) > 0)) return fmt("factorFactorConnection(%zu,%zu) is wrong", f, g); { std::string e = scan(gm.variablesOfFactorBegin(f), gm.variablesOfFactorEnd(f), F[f].v); if(!e.empty()) return fmt("variablesOfFactor iterators of %zu: ", f) + e; } size_t k = 0; for(typename GM::ConstVariableIterator it = gm.variablesOfFactorBegin(f); it != gm.variablesOfFactorEnd(f); ++it, ++k) if(k >= F[f].v.size() || *it != F[f].v[k]) return fmt("variablesOfFactor iterators of %zu are wrong", f); if(k != F[f].v.size()) return fmt("variablesOfFactorEnd(%zu) comes too early", f); }
   where("orders"); size_t mo = m.maxOrder(); if(gm.maxFactorOrder() != mo) return "maxFactorOrder() is wrong"; for(size_t o = 0; o <= mo + 1; ++o) if(gm.maxFactorOrder(o) != (mo <= o)) return fmt("maxFactorOrder(%zu) is wrong", o);
   where("adjacency"); { marray::Matrix<bool> a; if(n) gm.variableAdjacencyMatrix(a); for(size_t i = 0; i < n; ++i) for(size_t j = 0; j < n; ++j) if(a(i, j) != (va[i].count(j) > 0)) return fmt("variableAdjacencyMatrix(%zu,%zu) is wrong", i, j);
     std::vector<std::set<I> > s1, s2; std::vector<opengm::RandomAccessSet<I> > r1, r2; gm.variableAdjacencyList(s1); gm.variableAdjacencyList(r1); gm.factorAdjacencyList(s2); gm.factorAdjacencyList(r2); if(s1.size() != n || r1.size() != n || s2.size() != nf || r2.size() != nf) return "an adjacency list has the wrong length";
     for(size_t i = 0; i < n; ++i) if(std::set<size_t>(s1[i].begin(), s1[i].end()) != va[i] || std::vector<size_t>(r1[i].begin(), r1[i].end()) != std::vector<size_t>(va[i].begin(), va[i].end())) return fmt("variableAdjacencyList of variable %zu is wrong", i);
     for(size_t f = 0; f < nf; ++f) if(std::set<size_t>(s2[f].begin(), s2[f].end()) != fa[f] || std::vector<size_t>(r2[f].begin(), r2[f].end()) != std::vector<size_t>(fa[f].begin(), fa[f].end())) return fmt("factorAdjacencyList of factor %zu is wrong", f); }
   if(par) return std::string(); // chains and grids: no claim about parallel factors
   std::vector<size_t> deg(n); for(std::set<std::pair<size_t, size_t> >::iterator q = pairs.begin(); q != pairs.end(); ++q) { deg[q->first]++; deg[q->second]++; }
   size_t md = 0; for(size_t i = 0; i < n; ++i) md = std::max(md, deg[i]); bool chain = n && mo <= 2 && comp == 1 && pairs.size() + 1 == n && md <= 2;
   where("isChain"); marray::Vector<size_t> ids; bool c = gm.isChain(ids); if(c != chain) return fmt("isChain() is %d", int(c)); if(c) { if(ids.size() != n) return "isChain(): wrong number of variables"; std::set<size_t> u; for(size_t i = 0; i < n; ++i) { u.insert(ids(i)); if(i && !va[ids(i - 1)].count(ids(i))) return "isChain(): variables next to each other in the chain are not connected"; } if(u.size() != n) return "isChain(): a variable occurs twice"; count("probe.chain"); }
   where("isGrid"); marray::Matrix<size_t> gr; bool g = gm.isGrid(gr); if(chain && !g) return "isGrid() is 0 for a chain";
   if(g) { size_t a = gr.shape(0), b = gr.shape(1); if(a * b != n) return fmt("isGrid() found a %zu x %zu grid of %zu variables", a, b, n); std::set<size_t> u; size_t e = 0; for(size_t i = 0; i < a; ++i) for(size_t j = 0; j < b; ++j) { if(gr(i, j) >= n) return "isGrid(): variable out of range"; u.insert(gr(i, j)); if(i) { ++e; if(!va[gr(i - 1, j)].count(gr(i, j))) return "isGrid(): neighbours in the grid are not connected"; } if(j) { ++e; if(!va[gr(i, j - 1)].count(gr(i, j))) return "isGrid(): neighbours in the grid are not connected"; } } if(u.size() != n) return "isGrid(): a variable occurs twice"; if(e != pairs.size()) return "isGrid(): there are connections that are not part of the grid"; count("probe.grid"); }
   where(""); hashInt(acyclic * 8 + chain * 4 + g * 2); return g || mo > 2 ? std::string() : std::string("?"); // "?": a grid must not be missed, judged by the caller who knows the shape
}
// ------------------------------------------------ runs
template<class GM> void history(Faults& fl, bool faults) {
   M<GM> a, b; Ops<GM> o(fl, faults); size_t steps = 4 + choose(thorough() ? 60 : 36);
   for(size_t i = 0; i < steps; ++i) { M<GM>& s = choose(6) == 5 ? b : a; if(choose(9) == 8) { if(choose(2)) o.copy(a, b); else o.copy(b, a); } else { o.step(s); if(choose(3) == 0) expect(s, "history", o.last, choose(2)); } }
   expect(a, "history", "the end"); expect(b, "history", "the end"); if(!faults) nontrivial();
}
void cross(Faults& fl, bool faults) {
   M<G1> a; M<G2> b; M<G3> c; Ops<G1> oa(fl, faults); Ops<G2> ob(fl, faults); Ops<G3> oc(fl, faults); size_t steps = 6 + choose(thorough() ? 60 : 36);
   for(size_t i = 0; i < steps; ++i) { uint64_t w = choose(12);
      if(w < 3) oa.step(a); else if(w < 5) ob.step(b); else if(w < 8) oc.step(c); else if(w == 8) convert(fl, faults, b, a); else if(w == 9) convert(fl, faults, a, b); else if(w == 10) { if(choose(2)) convert(fl, faults, a, c); else convert(fl, faults, b, c); } else { if(choose(2)) convert(fl, faults, c, a); else convert(fl, faults, c, b); }
      expect(a, "bystander", "the operation on another model", false); expect(b, "bystander", "the operation on another model", false); expect(c, "bystander", "the operation on another model", false); }
   expect(a, "history", "the end"); expect(b, "history", "the end"); expect(c, "history", "the end");
}
void any(bool faults) { Faults fl; static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; Alloc::junk(junk[choose(4)]); uint64_t w = choose(5); sample("history of model type %d%s", int(w), faults ? " with failing operations" : "");
   if(w <= 1) history<G1>(fl, faults); else if(w == 2) history<G4>(fl, faults); else if(w == 3) history<G5>(fl, faults); else cross(fl, faults); where(""); interleaving(traceHash()); }
void run05() { any(false); }
void run06() { any(true); }
// P07: tasks that copy, convert, mutate, evaluate and destroy models; switches inside copies and evaluations
struct Pool { std::unique_ptr<M<G1> > a[3]; std::unique_ptr<M<G2> > b[2]; int ra[3], rb[2]; Faults fl; Pool() { for(int i = 0; i < 3; ++i) { ra[i] = 0; a[i].reset(new M<G1>()); } for(int i = 0; i < 2; ++i) { rb[i] = 0; b[i].reset(new M<G2>()); } } };
struct Hold { int& r; int d; Hold(int& q, bool write) : r(q), d(write ? -1000 : 1) { r += d; } ~Hold() { r -= d; } };
template<class A, class B> void transfer(Pool& p, M<A>& d, M<B>& s) { convert(p.fl, false, d, s); }
template<class A> void transfer(Pool& p, M<A>& d, M<A>& s) { Ops<A> o(p.fl, false); if(&d != &s) o.copy(d, s); }
void task(Pool& p, size_t steps) {
   for(size_t k = 0; k < steps; ++k) { yieldPoint(); uint64_t op = choose(8); int i = int(choose(5)), j = int(choose(5)); int& ri = i < 3 ? p.ra[i] : p.rb[i - 3]; int& rj = j < 3 ? p.ra[j] : p.rb[j - 3];
      if(op <= 3) { if(ri != 0) continue; Hold h(ri, true); if(i < 3) { Ops<G1> o(p.fl, false); o.step(*p.a[i]); expect(*p.a[i], "task", o.last); } else { Ops<G2> o(p.fl, false); o.step(*p.b[i - 3]); expect(*p.b[i - 3], "task", o.last); } }
      else if(op <= 5) { if(i == j || ri != 0 || rj < 0) continue; Hold h(ri, true), g(rj, false); if(i < 3) { if(j < 3) transfer(p, *p.a[i], *p.a[j]); else transfer(p, *p.a[i], *p.b[j - 3]); } else { if(j < 3) transfer(p, *p.b[i - 3], *p.a[j]); else transfer(p, *p.b[i - 3], *p.b[j - 3]); } count("probe.task-copy"); }
      else if(op == 6) { if(ri != 0) continue; Hold h(ri, true); if(i < 3) { p.a[i].reset(); yieldPoint(); p.a[i].reset(new M<G1>()); } else { p.b[i - 3].reset(); yieldPoint(); p.b[i - 3].reset(new M<G2>()); } ev("destroy %d", i); }
      else { if(ri < 0) continue; Hold h(ri, false); if(i < 3) expect(*p.a[i], "reader", "other tasks' operations"); else expect(*p.b[i - 3], "reader", "other tasks' operations"); } }
}
void run07() { static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; Alloc::junk(junk[choose(4)]); Pool p; size_t n = 2 + choose(3); std::vector<std::function<void()> > t; for(size_t i = 0; i < n; ++i) { size_t k = 4 + choose(thorough() ? 40 : 24); t.push_back([&p, k] { task(p, k); }); }
   { Ops<G1> o(p.fl, false); for(size_t i = choose(12); i > 0; --i) o.step(*p.a[0]); } sample("%zu tasks on 5 models", n); p.fl.yield = true; runTasks(t); p.fl.yield = false;
   for(int i = 0; i < 3; ++i) expect(*p.a[i], "end", "all tasks"); for(int i = 0; i < 2; ++i) expect(*p.b[i], "end", "all tasks"); interleaving(traceHash()); }
// P26: structure queries at every point of a construction history, also when allocations fail inside them
template<class GM> void query(GM& gm, M<GM>& s, Faults& fl, bool grid) {
   if(choose(4) == 0) { std::string e; Result r; bool arm = true; r = guarded(fl, arm, [&] { e = structure(gm, s.m); }); if(!r.threw && !r.fired && !e.empty() && e != "?") violation("structure", "%s", e.c_str()); if(r.threw && !r.fired) violation("structure-throws", "a query threw %s", r.what.c_str()); if(r.threw) { count("history.failed-query"); std::string w = wrong(s, false); if(!w.empty()) violation("structure-changed", "a failed query changed the model: %s", w.c_str()); } }
   std::string e = structure(gm, s.m); if(e == "?") { if(grid) violation("structure", "isGrid() is 0 for a grid (%s)", s.m.str().c_str()); } else if(!e.empty()) violation("structure:" + e.substr(0, e.find_first_of("( ")), "%s, model %s", e.c_str(), s.m.str().c_str()); nontrivial();
}
void run26() {
   Faults fl; M<G1> s; Ops<G1> o(fl, false); uint64_t shape = choose(5); std::vector<std::pair<size_t, size_t> > e; size_t n = 0, a = 1 + choose(5), b = 1 + choose(5); static const int junk[] = { 0xA5, 0, 0xFF, 0x01 }; Alloc::junk(junk[choose(4)]);
   if(shape == 0) { n = choose(8); for(uint64_t k = choose(10); k > 0 && n > 1; --k) { size_t x = choose(n), y = choose(n); if(x != y) e.push_back(std::make_pair(x, y)); } }
   else if(shape == 1) { n = 1 + choose(9); for(size_t i = 1; i < n; ++i) e.push_back(std::make_pair(i - 1, i)); }
   else if(shape == 2 || shape == 4) { n = a * b; for(size_t i = 0; i < a; ++i) for(size_t j = 0; j < b; ++j) { if(i) e.push_back(std::make_pair((i - 1) * b + j, i * b + j)); if(j) e.push_back(std::make_pair(i * b + j - 1, i * b + j)); } }
   else { n = 1 + choose(9); for(size_t i = 1; i < n; ++i) e.push_back(std::make_pair(choose(i), i)); }
   bool pure = shape == 2; std::vector<size_t> perm(n); for(size_t i = 0; i < n; ++i) perm[i] = i; if(choose(2)) for(size_t i = n; i > 1; --i) std::swap(perm[i - 1], perm[choose(i)]);
   if(shape == 4 || (shape && choose(4) == 3)) { pure = false; uint64_t h = choose(4); if(h == 0 && !e.empty()) e.erase(e.begin() + choose(e.size())); else if(h == 1) { perm.push_back(n); ++n; if(choose(2)) { e.push_back(std::make_pair(choose(n - 1), n - 1)); } } else if(n > 1) { size_t x = choose(n), y = choose(n); if(x != y) e.push_back(std::make_pair(x, y)); } if(h == 3 && n > 1) { size_t x = choose(n), y = choose(n); if(x != y) e.push_back(std::make_pair(x, y)); if(!e.empty()) e.erase(e.begin() + choose(e.size())); } }
   for(size_t i = e.size(); i > 1; --i) std::swap(e[i - 1], e[choose(i)]); for(size_t i = 0; i < n; ++i) { size_t l = 1 + choose(2); s.gm->addVariable(l); s.m.L.push_back(l); }
   bool late = choose(3) == 2; uint64_t every = 1 + choose(8); size_t done = 0; std::string nm = fmt("structure %d, %zu variables, %zu edges", int(shape), n, e.size()); sample("%s", nm.c_str()); ref::GenOpt go; bool extra = choose(2);
   for(size_t k = 0; k < e.size(); ++k) { std::vector<size_t> v; v.push_back(perm[e[k].first]); v.push_back(perm[e[k].second]); std::sort(v.begin(), v.end()); if(shape == 0 && choose(4) == 3) { size_t x = choose(n); if(x != v[0] && x != v[1]) { v.push_back(x); std::sort(v.begin(), v.end()); } }
      std::vector<std::vector<size_t> > vs(1, v); if(extra && choose(3) == 2) vs.push_back(std::vector<size_t>(1, choose(n))); if(extra && choose(9) == 8) vs.push_back(std::vector<size_t>());
      for(size_t q = 0; q < vs.size(); ++q) { ref::Function f = ref::genFunction(go, shapeOf(s, vs[q])); int fn = o.addFunction(s, f, 0); o.addFactor(s, size_t(fn), vs[q], late); }
      if(++done % every == 0) { if(late) o.finalize(s); query(*s.gm, s, fl, pure && k + 1 == e.size()); } }
   if(late) o.finalize(s); if(choose(3) == 0) { G1 c(*s.gm); query(c, s, fl, pure); } else query(*s.gm, s, fl, pure);
   interleaving(traceHash());
}
sim::Register r05("P05", run05); sim::Register r06("P06", run06); sim::Register r07("P07", run07); sim::Register r26("P26", run26);
}
