#pragma once
// vdrive: executes scenario lines through the public API on every MPI rank and records, after each
// operation, the projected global state as one NDJSON line (written by rank 0).
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "DyabloSession.hpp"
#include "amr/AMRmesh.h"
#include "utils/config/ConfigMap.h"
#include "utils/monitoring/Timers.h"
#include "foreach_cell/ForeachCell.h"
#include "UserData.h"

namespace vd {
using namespace dyablo;
typedef std::map<std::string, std::string> Args;

struct Op {
  std::string name;
  Args a;
  bool has(const std::string& k) const { return a.count(k) > 0; }
  std::string s(const std::string& k, const std::string& d = "") const { auto i = a.find(k); return i == a.end() ? d : i->second; }
  long i(const std::string& k, long d = 0) const { auto i = a.find(k); return i == a.end() ? d : std::atol(i->second.c_str()); }
  std::vector<std::string> l(const std::string& k, char sep = ',') const {
    std::vector<std::string> r; std::string v = s(k), c;
    if (v.empty()) return r;
    std::istringstream is(v);
    while (std::getline(is, c, sep)) r.push_back(c);
    return r;
  }
  std::vector<int> li(const std::string& k) const { std::vector<int> r; for (auto& x : l(k)) r.push_back(std::atoi(x.c_str())); return r; }
};

struct Oct { int l, x, y, z; };

struct Ctx {
  int rank, np;
  FILE* out = nullptr;
  int dim, lmin, lmax, bx, by, bz;
  int cgs[3], per[3];
  double lo[3], hi[3];
  std::set<std::string> obs;
  std::string ini;
  std::unique_ptr<ConfigMap> conf;
  std::unique_ptr<AMRmesh> mesh;
  std::unique_ptr<ForeachCell> fc;
  std::unique_ptr<UserData> U;
  Timers timers;
  static constexpr int F = 8;  // particle lattice: F sub-positions per finest octant
  long nf(int d) const { return d < dim ? (long)cgs[d] * (1L << (lmax - lmin)) * F : 1; }
  bool see(const char* k) const { return obs.count(k) > 0; }
};

extern Ctx C;

inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
template <typename... A> inline uint64_t hash(A... a) { uint64_t h = 0x9e3779b97f4a7c15ULL; ((h = mix(h * 31 + (uint64_t)a + 0x1234567ULL)), ...); return h; }
inline uint64_t hstr(const std::string& s) { uint64_t h = 7; for (char c : s) h = mix(h * 131 + (unsigned char)c); return h; }

// octant (local or ghost) -> integer level/logical coordinates
Oct oct_local(uint32_t i);
Oct oct_ghost(uint32_t i);
Oct oct_of(const LightOctree& lm, LightOctree_base::OctantIndex o);
inline std::string js(const Oct& o) { char b[96]; snprintf(b, 96, "[%d,%d,%d,%d]", o.l, o.x, o.y, o.z); return b; }
// exact integer or the marker for "not an integer"
inline long ival(double v) { return (std::isfinite(v) && v == std::floor(v) && std::fabs(v) < 2000000000.) ? (long)v : -2000000001L; }
// cell values and attributes are stored as v*SC (exact, linear, needs more than single precision)
constexpr double SC = 1. + 1. / (1 << 22);
inline long dval(double x) { long v = std::isfinite(x) && std::fabs(x) < 2000000000. ? std::lround(x / SC) : -2000000001L; return v * SC == x ? v : -2000000001L; }
std::string jstr(const std::string& s);
std::string jnames(const std::set<std::string>& s);

// gathers one string per rank; rank 0 gets the JSON array
std::string gather(const std::string& mine);
// joins parts with commas
struct Join { std::string s; void add(const std::string& x) { if (!s.empty()) s += ','; s += x; } std::string arr() const { return "[" + s + "]"; } };
void emit(const std::string& op, const std::string& extra, const std::set<std::string>& obs);
inline void emit(const std::string& op, const std::string& extra) { emit(op, extra, C.obs); }
bool can_grefine();
void skip();   // an operation whose precondition does not hold
std::string project(const std::set<std::string>& obs);
// runs f, which may refuse by throwing; returns whether any rank threw ("1"/"0"), the throw is collective or local
bool refused(const std::function<void()>& f);

std::string obs_fields();
std::string obs_particles();
bool op_mesh(const Op& o);
bool op_fields(const Op& o);
bool op_particles(const Op& o);
bool op_cells(const Op& o);
bool op_phys(const Op& o) __attribute__((weak));   // only in vphys
void apply_marks(const Op& o, std::string& json);
void reset_fields();
void reset_particles();
}
