// Ledger of HDF5 handles: every handle obtained through the public API must be passed to its close function.
// (A close that fails still counts: libhdf5 keeps such ids registered, which callers cannot change.)
#include "h5ledger.hpp"
#include "sim.hpp"
#include <dlfcn.h>
#include <hdf5.h>
#include <map>
namespace h5l {
static std::map<hid_t, const char*>& open() { static std::map<hid_t, const char*> m; return m; }
static uint64_t closeErrors = 0;
static hid_t got(hid_t id, const char* w) { sim::Harness h; if(id >= 0) open()[id] = w; return id; }
static void gone(hid_t id) { sim::Harness h; open().erase(id); }
size_t leaked(std::string& what) { what.clear(); for(auto& kv : open()) { if(!what.empty()) what += ", "; what += kv.second; } return open().size(); }
void clear() { open().clear(); }
uint64_t failedCloses() { return closeErrors; }
template<class F> F real(const char* n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}
using namespace h5l;
#undef H5Gcreate
#define OPENER(name, params, args) hid_t name params { typedef hid_t (*F) params; static F f = real<F>(#name); return got(f args, #name); }
#define CLOSER(name) herr_t name(hid_t id) { typedef herr_t (*F)(hid_t); static F f = real<F>(#name); herr_t r = f(id); gone(id); if(r < 0) ++closeErrors; return r; }
extern "C" {
OPENER(H5Fcreate, (const char* n, unsigned fl, hid_t a, hid_t b), (n, fl, a, b))
OPENER(H5Fopen, (const char* n, unsigned fl, hid_t a), (n, fl, a))
OPENER(H5Gcreate2, (hid_t l, const char* n, hid_t a, hid_t b, hid_t c), (l, n, a, b, c))
OPENER(H5Gopen2, (hid_t l, const char* n, hid_t a), (l, n, a))
OPENER(H5Dcreate2, (hid_t l, const char* n, hid_t t, hid_t s, hid_t a, hid_t b, hid_t c), (l, n, t, s, a, b, c))
OPENER(H5Dopen2, (hid_t l, const char* n, hid_t a), (l, n, a))
OPENER(H5Acreate2, (hid_t l, const char* n, hid_t t, hid_t s, hid_t a, hid_t b), (l, n, t, s, a, b))
OPENER(H5Screate_simple, (int r, const hsize_t* a, const hsize_t* b), (r, a, b))
OPENER(H5Tcopy, (hid_t t), (t))
OPENER(H5Dget_space, (hid_t t), (t))
OPENER(H5Dget_type, (hid_t t), (t))
OPENER(H5Tget_native_type, (hid_t t, H5T_direction_t d), (t, d))
CLOSER(H5Fclose)
CLOSER(H5Gclose)
CLOSER(H5Dclose)
CLOSER(H5Aclose)
CLOSER(H5Sclose)
CLOSER(H5Tclose)
}
