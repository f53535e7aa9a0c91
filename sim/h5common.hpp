#pragma once
#include "gm.hpp"
#include "fs.hpp"
#include "h5ledger.hpp"
#include <opengm/graphicalmodel/graphicalmodel_hdf5.hxx>
#include <cerrno>

namespace h5c {
using namespace sim;
template<class T, class I, class L> struct AllTL {
   typedef typename opengm::meta::TypeListGenerator<
      opengm::ExplicitFunction<T, I, L>, opengm::PottsFunction<T, I, L>, opengm::PottsNFunction<T, I, L>, opengm::PottsGFunction<T, I, L>,
      opengm::AbsoluteDifferenceFunction<T, I, L>, opengm::SquaredDifferenceFunction<T, I, L>, opengm::TruncatedAbsoluteDifferenceFunction<T, I, L>,
      opengm::TruncatedSquaredDifferenceFunction<T, I, L>, opengm::SparseFunction<T, I, L, std::map<size_t, T> >, opengm::ConstantFunction<T, I, L> >::type type;
   // same functions, listed in another order
   typedef typename opengm::meta::TypeListGenerator<
      opengm::ConstantFunction<T, I, L>, opengm::SparseFunction<T, I, L, std::map<size_t, T> >, opengm::TruncatedSquaredDifferenceFunction<T, I, L>, opengm::PottsFunction<T, I, L>,
      opengm::ExplicitFunction<T, I, L>, opengm::SquaredDifferenceFunction<T, I, L>, opengm::PottsNFunction<T, I, L>,
      opengm::AbsoluteDifferenceFunction<T, I, L>, opengm::PottsGFunction<T, I, L>, opengm::TruncatedAbsoluteDifferenceFunction<T, I, L> >::type other;
};
typedef opengm::GraphicalModel<double, opengm::Adder, AllTL<double, size_t, size_t>::type, opengm::DiscreteSpace<size_t, size_t> > GmA;
typedef opengm::GraphicalModel<double, opengm::Adder, AllTL<double, size_t, size_t>::other, opengm::DiscreteSpace<size_t, size_t> > GmB;
typedef opengm::GraphicalModel<float, opengm::Multiplier, opengm::ExplicitFunction<float, unsigned, unsigned char>, opengm::SimpleDiscreteSpace<unsigned, unsigned char> > GmC;

inline void warm() { H5open(); H5Eset_auto2(H5E_DEFAULT, 0, 0);
   // touch the library once so that its one-time initialisation happens before any fork
   hid_t f = H5Fcreate("/sim/warm.h5", H5F_ACC_TRUNC, H5P_DEFAULT, H5P_DEFAULT); H5Fclose(f); simfs::remove("/sim/warm.h5"); h5l::clear(); }


const unsigned AllKinds = (1u << simfs::KKinds) - 1;
// A fault plan placed inside an operation that performs `n[k]` operations of each kind.
inline simfs::Plan drawPlan(const std::vector<int64_t>& n, bool reading) {
   simfs::Plan p;
   unsigned sets[] = { 1u << simfs::KWrite, (1u << simfs::KWrite) | (1u << simfs::KTrunc), 1u << simfs::KClose, 1u << simfs::KOpen, 1u << simfs::KTrunc, 1u << simfs::KRead, 1u << simfs::KStat, 1u << simfs::KLock, AllKinds };
   unsigned rsets[] = { 1u << simfs::KRead, 1u << simfs::KOpen, 1u << simfs::KClose, 1u << simfs::KStat, 1u << simfs::KLock, AllKinds };
   p.kinds = reading ? rsets[choose(6)] : sets[choose(9)];
   int64_t tot = 0; for(int k = 0; k < simfs::KKinds; ++k) if(p.kinds & (1u << k)) tot += n[k];
   p.at = static_cast<int64_t>(choose(tot + 1));
   switch(choose(4)) { case 0: case 1: p.mode = simfs::MSingle; break; case 2: p.mode = simfs::MPersistent; break; default: p.mode = simfs::MHeal; p.len = 1 + choose(4); }
   switch(choose(5)) { case 0: case 1: case 2: p.effect = simfs::EErr; break; case 3: p.effect = simfs::EShort; break; default: p.effect = simfs::EIntr; }
   bool openish = p.kinds == (1u << simfs::KOpen);
   static const int errs[] = { EIO, ENOSPC }; p.err = openish ? (choose(2) ? EMFILE : EACCES) : p.kinds == (1u << simfs::KLock) ? EWOULDBLOCK : reading ? EIO : errs[choose(2)];
   return p;
}
inline std::vector<int64_t> opCounts() { std::vector<int64_t> n; for(int k = 0; k < simfs::KKinds; ++k) n.push_back(simfs::seen(1u << k)); return n; }
inline std::string planStr(const simfs::Plan& p) { return sim::fmt("plan{mode %d kinds 0x%x at %lld len %lld err %d effect %d}", p.mode, p.kinds, (long long)p.at, (long long)p.len, p.err, p.effect); }
}
