// P04: format converters on the simulated disk: round trips, disk faults, truncated and malformed text.
#include "h5common.hpp"
#include <iomanip>
#include <iostream>
#include <sstream>
using namespace sim;
using namespace h5c;
int conv_opengm2uai(int, const char**); int conv_uai2opengm(int, const char**); int conv_opengm2wudag(int, const char**); int conv_partition2potts(int, const char**); int conv_brain_(int, const char**);
namespace {
typedef int (*Conv)(int, const char**);
struct Mute { std::ostringstream o; std::streambuf *a, *b; Mute() : a(std::cout.rdbuf(o.rdbuf())), b(std::cerr.rdbuf(o.rdbuf())) {} ~Mute() { std::cout.rdbuf(a); std::cerr.rdbuf(b); } };
// 0: reported success; 1: exit status; 2: exception
int call(Conv f, const char* name, const std::string& a, const std::string& b, const char* c = 0, const char* d = 0, const char* e = 0, const char* g = 0) {
   const char* v[] = { name, a.c_str(), b.c_str(), c, d, e, g, 0 }; int n = 3; while(v[n]) ++n; Mute mu; where(name); int r = 0; std::string why;
   try { r = f(n, v) != 0; } catch(std::exception& x) { r = 2; why = x.what(); }
   ev("%s: %s", name, r == 0 ? "success" : r == 1 ? "exit status" : why.c_str()); return r;
}
void putText(const std::string& p, const std::string& s) { simfs::put(p, simfs::Bytes(s.begin(), s.end())); }
std::string text(const std::string& p) { simfs::Bytes b; if(simfs::exists(p)) b = simfs::get(p); return std::string(b.begin(), b.end()); }
template<class GM> bool load(GM& g, const std::string& p, std::string& e) { try { opengm::hdf5::load(g, p, "gm"); } catch(std::exception& x) { e = x.what(); return false; } return true; }
typedef opengm::GraphicalModel<double, opengm::Adder, OPENGM_TYPELIST_2(opengm::ExplicitFunction<double>, opengm::PottsFunction<double>), opengm::DiscreteSpace<> > GmP;
std::string differs(const std::string& p, const ref::Model& m) { GmA g; std::string e; if(!load(g, p, e)) return "it does not load: " + e; return gmx::compare(g, m, 6, false); }
// leaves a good output of another run behind, sometimes
void stale(const std::string& p) { if(choose(3) == 2) putText(p, choose(2) ? "MARKOV\n1\n2 \n1\n1 0 \n\n2\n0.5 0.5 \n" : std::string(choose(400), 'x')); }
// Runs a conversion under a fault plan or full disk; `good` judges the output when success is reported.
template<class F, class G> void faulty(const char* n, const std::string& out, F conv, G good) {
   simfs::Plan none; simfs::plan(none); if(conv("/sim/dry.out") != 0) violation(std::string("clean:") + n, "%s failed without any fault", n); std::vector<int64_t> c = opCounts(); size_t sz = simfs::get("/sim/dry.out").size(); simfs::remove("/sim/dry.out");
   stale(out); size_t used = 0; (void)used;
   if(choose(3) == 2) { simfs::plan(none); simfs::capacity(int64_t(choose(sz + 1))); ev("%s with disk capacity", n); } else { simfs::Plan p = drawPlan(c, choose(2)); simfs::plan(p); ev("%s with %s", n, planStr(p).c_str()); }
   int r = conv(out); bool fired = simfs::fired() > 0, hard = simfs::hard(); simfs::capacity(-1); simfs::heal(); if(fired) { nontrivial(); count(r ? "conversion-rejected" : "conversion-acked-despite-fault"); }
   if(r && !hard) violation(std::string("spurious:") + n, "%s failed although the disk reported no error", n);
   if(r == 0) { std::string e = good(out); if(!e.empty()) violation(std::string("acked:") + n, "%s reported success under disk faults, but: %s", n, e.c_str()); }
   else { r = conv(out); if(r) violation(std::string("retry:") + n, "%s failed after the fault was gone", n); std::string e = good(out); if(!e.empty()) violation(std::string("retry:") + n, "after a repeated %s: %s", n, e.c_str()); }
}
// ---------------------------------------------------------------- UAI
std::string uaiText(const ref::Model& m, const std::vector<std::vector<size_t> >& order) { // factor f lists its variables in order[f]
   std::ostringstream o; o << "MARKOV" << (choose(2) ? "\n" : "  \n") << m.L.size() << "\n"; for(size_t i = 0; i < m.L.size(); ++i) o << m.L[i] << " "; o << "\n" << m.F.size() << "\n";
   for(size_t f = 0; f < m.F.size(); ++f) { o << order[f].size(); for(size_t i = 0; i < order[f].size(); ++i) o << " " << m.F[f].v[order[f][i]]; o << "\n"; } o << std::setprecision(17);
   for(size_t f = 0; f < m.F.size(); ++f) { size_t k = order[f].size(); const ref::Function& fn = m.fn[m.F[f].fn]; o << "\n" << fn.t.size() << "\n"; std::vector<size_t> sh(k); for(size_t i = 0; i < k; ++i) sh[k - 1 - i] = fn.shape[order[f][i]]; // last variable fastest
      ref::Lab d(k, 0); do { ref::Lab l(k); for(size_t i = 0; i < k; ++i) l[order[f][i]] = d[k - 1 - i]; o << " " << std::exp(-fn.at(l)); } while(ref::next(d, sh)); o << "\n"; }
   return o.str();
}
struct Tok { size_t b, e; };
std::vector<Tok> tokens(const std::string& s) { std::vector<Tok> r; for(size_t i = 0; i < s.size();) { while(i < s.size() && isspace((unsigned char)s[i])) ++i; size_t b = i; while(i < s.size() && !isspace((unsigned char)s[i])) ++i; if(i > b) { Tok t = { b, i }; r.push_back(t); } } return r; }
// What a UAI text should be read as: role of each token.
enum Role { Magic, NVars, Card, NFactors, Order, Var, Size, Value };
std::vector<Role> roles(const ref::Model& m) { std::vector<Role> r; r.push_back(Magic); r.push_back(NVars); r.insert(r.end(), m.L.size(), Card); r.push_back(NFactors); for(size_t f = 0; f < m.F.size(); ++f) { r.push_back(Order); r.insert(r.end(), m.F[f].v.size(), Var); } for(size_t f = 0; f < m.F.size(); ++f) { r.push_back(Size); r.insert(r.end(), m.fn[m.F[f].fn].t.size(), Value); } return r; }
void readUai(const std::string& good, const ref::Model& m) {
   auto conv = [](const std::string& o) { return call(conv_uai2opengm, "uai2opengm", "/sim/in.uai", o); };
   putText("/sim/in.uai", good); stale("/sim/o.h5"); if(conv("/sim/o.h5") != 0) violation("clean:uai2opengm", "a well-formed file was rejected"); std::string e = differs("/sim/o.h5", m); if(!e.empty()) violation("wrong:uai2opengm", "uai2opengm: %s", e.c_str()); count("probe.uai-read"); nontrivial();
   if(choose(2)) faulty("uai2opengm", "/sim/o.h5", conv, [&](const std::string& o) { return differs(o, m); });
   std::vector<Tok> t = tokens(good); std::vector<Role> ro = roles(m); if(t.size() != ro.size()) violation("harness", "%zu tokens, %zu roles", t.size(), ro.size());
   if(choose(2)) { size_t cut = choose(t.back().b + 1); bool mid = false; size_t k = 0; while(k < t.size() && t[k].e <= cut) ++k; if(k < t.size() && cut > t[k].b) mid = true; putText("/sim/in.uai", good.substr(0, cut)); ev("truncated at %zu of %zu (token %zu of %zu%s)", cut, good.size(), k, t.size(), mid ? ", inside" : "");
      int r = conv("/sim/cut.h5"); count("fault.truncated-input"); if(r == 0) violation("truncated:uai2opengm", "a file of %zu bytes truncated at byte %zu was converted", good.size(), cut); simfs::remove("/sim/cut.h5"); }
   if(choose(2)) { size_t k = choose(t.size()); std::string rep; bool must = true; switch(choose(3)) {
         case 0: rep = "?"; break;
         case 1: if(ro[k] == Magic) rep = choose(2) ? "BAYES" : "markov"; else if(ro[k] == Var) rep = fmt("%zu", m.L.size() + choose(3)); else if(ro[k] == Size) rep = fmt("%zu", size_t(1 + std::stoul(good.substr(t[k].b, t[k].e - t[k].b)))); else if(ro[k] == Card) rep = "0"; else rep = "x1"; break;
         default: if(ro[k] == Value) rep = "-1"; else if(ro[k] == Var || ro[k] == Size) rep = "-1"; else rep = "?1"; }
      if(ro[k] == NVars && m.L.empty()) must = true;
      std::string s = good.substr(0, t[k].b) + rep + good.substr(t[k].e); putText("/sim/in.uai", s); ev("token %zu (role %d) replaced by %s", k, int(ro[k]), rep.c_str()); int r = conv("/sim/bad.h5"); count("fault.malformed-input"); if(r == 0 && must) violation(fmt("malformed-%d:uai2opengm", int(ro[k])), "a file whose token %zu is %s was converted", k, rep.c_str()); simfs::remove("/sim/bad.h5"); }
   if(choose(6) == 5) { simfs::remove("/sim/in.uai"); if(conv("/sim/none.h5") == 0) violation("missing:uai2opengm", "a missing file was converted"); count("fault.missing-input"); }
}
void uai() {
   ref::GenOpt o; o.allKinds = true; o.minVars = 0; o.maxVars = 6; o.maxLabels = 4; o.maxOrder = choose(6) == 5 ? 3 : 2; o.order0 = true; o.maxFactors = 8; ref::Model m = ref::gen(o); sample("uai %s", m.str().c_str());
   bool high = m.maxOrder() > 2, foreign = false; for(size_t f = 0; f < m.fn.size(); ++f) { int k = m.fn[f].kind; if(k != ref::Explicit && k != ref::Potts && k != ref::PottsN && k != ref::PottsG && k != ref::TruncAbs && k != ref::TruncSq) foreign = true; }
   if(choose(3)) { GmA g; gmx::build<GmA, true>(m, g); opengm::hdf5::save(g, "/sim/m.h5", "gm");
      auto conv = [](const std::string& t) { return call(conv_opengm2uai, "opengm2uai", "/sim/m.h5", t); }; stale("/sim/m.uai"); int r = conv("/sim/m.uai");
      auto back = [&](const std::string& t) { if(call(conv_uai2opengm, "uai2opengm", t, "/sim/back.h5") != 0) return std::string("the written file was rejected"); return differs("/sim/back.h5", m); };
      if(r == 0) { if(high) violation("high-order:opengm2uai", "a factor of order 3 was not reported"); std::string e = back("/sim/m.uai"); if(!e.empty()) violation("wrong:opengm2uai", "opengm2uai and back: %s", e.c_str()); count("probe.round-trip"); nontrivial(); faulty("opengm2uai", "/sim/m.uai", conv, back); }
      else { if(!high && !foreign) violation("clean:opengm2uai", "a model of order %zu was rejected", m.maxOrder()); count("fault.unsupported-model"); }
      if(choose(6) == 5) { if(call(conv_opengm2uai, "opengm2uai", "/sim/nothing.h5", "/sim/m2.uai") == 0) violation("missing:opengm2uai", "a missing model was converted"); count("fault.missing-input"); }
   } else { std::vector<std::vector<size_t> > ord(m.F.size()); for(size_t f = 0; f < m.F.size(); ++f) { for(size_t i = 0; i < m.F[f].v.size(); ++i) ord[f].push_back(i); for(size_t i = ord[f].size(); i > 1; --i) std::swap(ord[f][i - 1], ord[f][choose(i)]); } readUai(uaiText(m, ord), m); }
}
// ---------------------------------------------------------------- partition problems
void partition() {
   bool wudag = choose(2); ref::GenOpt o; ref::Model m; size_t n = 1 + choose(7), L = 2 + choose(4), nf = choose(9); m.L.assign(n, L); bool bad = choose(5) == 4, zero = false;
   for(size_t f = 0; f < nf; ++f) { ref::Function fn; ref::Factor fa; size_t ord = bad && choose(3) == 2 ? (choose(2) ? 1 : 3) : wudag && choose(4) == 3 ? 0 : 2; if(n < ord) ord = 0; if(ord == 0 && !wudag && !bad) continue; std::vector<size_t> all(n); for(size_t i = 0; i < n; ++i) all[i] = i; for(size_t j = 0; j < ord; ++j) { size_t c = choose(all.size()); fa.v.push_back(all[c]); all.erase(all.begin() + c); } std::sort(fa.v.begin(), fa.v.end()); fn.shape.assign(ord, L); if(ord == 0) zero = true;
      if(ord == 2) { fn.kind = choose(2) ? ref::Potts : ref::Explicit; double a = ref::val(o), b = ref::val(o); if(fn.kind == ref::Potts) { fn.p.push_back(a); fn.p.push_back(b); ref::fillFromFormula(fn); } else for(size_t q = 0; q < L * L; ++q) fn.t.push_back(q / L == q % L ? a : b); } else { fn.kind = ref::Explicit; size_t s = fn.size(); for(size_t q = 0; q < s; ++q) fn.t.push_back(ref::val(o)); }
      fa.fn = m.fn.size(); m.fn.push_back(fn); m.F.push_back(fa); }
   bool unsup = false; for(size_t f = 0; f < m.F.size(); ++f) { size_t k = m.F[f].v.size(); if(k == 1 || k > 2 || (k == 0 && !wudag)) unsup = true; } sample("%s %s", wudag ? "wudag" : "potts", m.str().c_str());
   GmA g; gmx::build<GmA, true>(m, g); opengm::hdf5::save(g, "/sim/p.h5", "gm");
   const char* name = wudag ? "opengm2wudag" : "partition2potts"; std::string Ls = fmt("%zu", size_t(2 + choose(4))); size_t K = size_t(atoi(Ls.c_str()));
   auto conv = [&](const std::string& t) { return wudag ? call(conv_opengm2wudag, name, "/sim/p.h5", t) : call(conv_partition2potts, name, "/sim/p.h5", t, Ls.c_str()); };
   auto good = [&](const std::string& p) -> std::string {
      if(wudag) { std::istringstream in(text(p)); size_t a = 0, b = 0, ne = 0; double c = 0, want = 0; for(size_t f = 0; f < m.F.size(); ++f) { want += m.fn[m.F[f].fn].t[0]; if(m.F[f].v.size() == 2) ++ne; } if(!(in >> a >> b >> c) || a != n || b != ne || std::fabs(c - want) > 1e-9) return fmt("header says %zu variables, %zu edges, constant %.12g instead of %zu, %zu, %.12g", a, b, c, n, ne, want);
         for(size_t f = 0; f < m.F.size(); ++f) { if(m.F[f].v.size() != 2) continue; const ref::Function& fn = m.fn[m.F[f].fn]; size_t x = 0, y = 0; double w = 0, ww = fn.t[L] - fn.t[0]; if(!(in >> x >> y >> w) || x != m.F[f].v[0] || y != m.F[f].v[1] || std::fabs(w - ww) > 1e-9) return fmt("edge of factor %zu is (%zu,%zu,%.12g) instead of (%zu,%zu,%.12g)", f, x, y, w, m.F[f].v[0], m.F[f].v[1], ww); } std::string rest; if(in >> rest) return "the text goes on after the last edge"; return ""; }
      GmP q; std::string e; if(!load(q, p, e)) return "it does not load: " + e; if(q.numberOfVariables() != n) return "wrong number of variables"; for(size_t i = 0; i < n; ++i) if(q.numberOfLabels(i) != K) return "wrong number of labels"; for(int s = 0; s < 8; ++s) { ref::Lab x(n); for(size_t i = 0; i < n; ++i) x[i] = s == 0 ? 0 : (s * 5 + i * 3 + s * i) % K; double want = x[0] ? 1e9 : 0; for(size_t f = 0; f < m.F.size(); ++f) { const ref::Function& fn = m.fn[m.F[f].fn]; want += x[m.F[f].v[0]] == x[m.F[f].v[1]] ? fn.t[0] : fn.t[1]; } double got = q.evaluate(x.begin()); if(std::fabs(got - want) > 1e-5) return fmt("a partition has value %.12g instead of %.12g", got, want); } return ""; };
   stale("/sim/p.out"); int r = conv("/sim/p.out"); (void)zero;
   if(r == 0) { if(unsup) violation(std::string("order:") + name, "a model with factors of unsupported order was converted"); std::string e = good("/sim/p.out"); if(!e.empty()) violation(std::string("wrong:") + name, "%s: %s", name, e.c_str()); count("probe.partition"); nontrivial(); if(choose(2)) faulty(name, "/sim/p.out", conv, good); }
   else { if(!unsup) violation(std::string("clean:") + name, "a supported model was rejected"); count("fault.unsupported-model"); }
}
// ---------------------------------------------------------------- label volumes
void volume() {
   size_t d[3]; for(int i = 0; i < 3; ++i) d[i] = 1 + choose(3); size_t n = d[0] * d[1] * d[2]; simfs::Bytes b(n); ref::Model m; m.L.assign(n, 5); double w = double(choose(9)) / 2; static const double c[] = { 4, 45, 105, 150, 204 };
   for(size_t i = 0; i < n; ++i) b[i] = (unsigned char)(choose(3) == 2 ? (choose(2) ? 255 : 10) : choose(256));
   auto fac = [&](std::vector<size_t> v, const ref::Function& f) { ref::Factor a; a.v = v; a.fn = m.fn.size(); m.fn.push_back(f); m.F.push_back(a); };
   for(size_t z = 0; z < d[2]; ++z) for(size_t y = 0; y < d[1]; ++y) for(size_t x = 0; x < d[0]; ++x) { size_t i = (z * d[1] + y) * d[0] + x; ref::Function u; u.kind = ref::Explicit; u.shape.assign(1, 5); for(int k = 0; k < 5; ++k) u.t.push_back(std::fabs(double(b[i]) - c[k])); fac(std::vector<size_t>(1, i), u); ref::Function p; p.kind = ref::Potts; p.shape.assign(2, 5); p.p.push_back(0); p.p.push_back(w); ref::fillFromFormula(p); size_t st[] = { 1, d[0], d[0] * d[1] }; bool in[] = { x + 1 < d[0], y + 1 < d[1], z + 1 < d[2] }; for(int k = 0; k < 3; ++k) if(in[k]) { std::vector<size_t> v(1, i); v.push_back(i + st[k]); fac(v, p); } }
   std::string s[4] = { fmt("%zu", d[0]), fmt("%zu", d[1]), fmt("%zu", d[2]), fmt("%g", w) }; sample("brain %zux%zux%zu w=%g", d[0], d[1], d[2], w);
   auto conv = [&](const std::string& o) { return call(conv_brain_, "brain", "/sim/v.raw", o, s[0].c_str(), s[1].c_str(), s[2].c_str(), s[3].c_str()); };
   simfs::put("/sim/v.raw", b); stale("/sim/v.h5"); if(conv("/sim/v.h5") != 0) violation("clean:brain", "a volume was rejected"); std::string e = differs("/sim/v.h5", m); if(!e.empty()) violation("wrong:brain", "brain: %s", e.c_str()); nontrivial(); count("probe.volume");
   if(choose(2)) faulty("brain", "/sim/v.h5", conv, [&](const std::string& o) { return differs(o, m); });
   if(choose(2)) { simfs::Bytes q(b.begin(), b.begin() + choose(n)); simfs::put("/sim/v.raw", q); if(conv("/sim/cut.h5") == 0) violation("truncated:brain", "%zu of %zu voxels were converted", q.size(), n); count("fault.truncated-input"); }
   else if(choose(4) == 3) { simfs::remove("/sim/v.raw"); if(conv("/sim/none.h5") == 0) violation("missing:brain", "a missing volume was converted"); count("fault.missing-input"); }
}
void run() { simfs::plan(simfs::Plan()); uint64_t k = choose(8); if(k < 5) uai(); else if(k < 7) partition(); else volume(); std::string lk; size_t hs = h5l::leaked(lk); if(hs) violation("handle-leak", "%zu HDF5 handles never closed: %s", hs, lk.c_str()); interleaving(traceHash()); }
Register reg("P04", run, warm);
}
