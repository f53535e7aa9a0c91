#include "solver_impl.hpp"
namespace slv {
EvalHook* evalHook = 0;
std::vector<Solver>& all() { static std::vector<Solver> v; return v; }
void sortAll() { std::sort(all().begin(), all().end(), [](const Solver& a, const Solver& b) { return std::string(a.name) < b.name; }); }
Models* buildModels(const ref::Model& m, bool hook) {
   Models* r = new Models; r->mul = m.mul;
   if(!m.mul) {
      r->a = GMA(opengm::DiscreteSpace<>(m.L.begin(), m.L.end()));
      std::vector<GMA::FunctionIdentifier> id;
      for(size_t i = 0; i < m.fn.size(); ++i) {
         const ref::Function& f = m.fn[i];
         if(f.kind == ref::Potts) id.push_back(r->a.addFunction(opengm::PottsFunction<double>(f.shape[0], f.shape[1], f.p[0], f.p[1])));
         else if(f.kind == ref::TruncAbs) id.push_back(r->a.addFunction(opengm::TruncatedAbsoluteDifferenceFunction<double>(f.shape[0], f.shape[1], f.p[0], f.p[1])));
         else if(hook && !f.shape.empty()) id.push_back(r->a.addFunction(HookFunction<double>(f.shape, f.t)));
         else { opengm::ExplicitFunction<double> e(f.shape.begin(), f.shape.end()); for(size_t k = 0; k < f.t.size(); ++k) e(k) = f.t[k]; if(f.shape.empty()) { e = opengm::ExplicitFunction<double>(f.t[0]); } id.push_back(r->a.addFunction(e)); }
      }
      for(size_t f = 0; f < m.F.size(); ++f) r->a.addFactor(id[m.F[f].fn], m.F[f].v.begin(), m.F[f].v.end());
   }
   else {
      r->m = GMM(opengm::DiscreteSpace<>(m.L.begin(), m.L.end()));
      std::vector<GMM::FunctionIdentifier> id;
      for(size_t i = 0; i < m.fn.size(); ++i) {
         const ref::Function& f = m.fn[i];
         if(hook && !f.shape.empty()) id.push_back(r->m.addFunction(HookFunction<double>(f.shape, f.t)));
         else { opengm::ExplicitFunction<double> e(f.shape.begin(), f.shape.end()); for(size_t k = 0; k < f.t.size(); ++k) e(k) = f.t[k]; if(f.shape.empty()) { e = opengm::ExplicitFunction<double>(f.t[0]); } id.push_back(r->m.addFunction(e)); }
      }
      for(size_t f = 0; f < m.F.size(); ++f) r->m.addFactor(id[m.F[f].fn], m.F[f].v.begin(), m.F[f].v.end());
   }
   return r;
}
void destroyModels(Models* m) { delete m; }
std::string compareModels(const Models* m, const ref::Model& r) { EvalHook* h = evalHook; evalHook = 0; std::string s = m->mul ? gmx::compare(m->m, r) : gmx::compare(m->a, r); evalHook = h; return s; }
double evaluateModels(const Models* m, const ref::Lab& x) { EvalHook* h = evalHook; evalHook = 0; ref::Lab y(x); y.push_back(0); double v = m->mul ? m->m.evaluate(y.begin()) : m->a.evaluate(y.begin()); evalHook = h; return v; }
} // namespace slv
