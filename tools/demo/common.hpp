#pragma once
#include <mpi.h>
#include <cstdio>
#include <cmath>
#include <map>
#include <set>
#include <array>
#include <vector>
#include <string>
#include <sstream>
#include <functional>
#include "DyabloSession.hpp"
#include "amr/AMRmesh.h"
#include "utils/config/ConfigMap.h"
#include "utils/monitoring/Timers.h"
#include "foreach_cell/ForeachCell.h"
#include "UserData.h"
using namespace dyablo;
typedef std::array<int, 4> O4;   // level, x, y, z
struct Demo {
  int rank, np, dim, lmin, lmax, bad = 0; std::array<int, 3> cgs, per, b;
  std::unique_ptr<ConfigMap> conf; std::unique_ptr<AMRmesh> mesh; std::unique_ptr<ForeachCell> fc; std::unique_ptr<UserData> U; Timers timers;
  Demo(int dim, int lmin, int lmax, std::array<int, 3> cgs, std::array<int, 3> per, std::array<int, 3> b, std::string more = "") : dim(dim), lmin(lmin), lmax(lmax), cgs(cgs), per(per), b(b) {
    MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &np);
    if (dim == 2) this->cgs[2] = this->b[2] = 1;
    std::ostringstream o; const char* A[3] = {"x", "y", "z"};
    o << "[mesh]\nndim=" << dim << "\n";
    for (int d = 0; d < 3; d++) o << A[d] << "min=0\n" << A[d] << "max=1\nboundary_type_" << A[d] << "min=" << (per[d] ? "periodic" : "absorbing") << "\nboundary_type_" << A[d] << "max=" << (per[d] ? "periodic" : "absorbing") << "\n";
    o << "[amr]\nlevel_min=" << lmin << "\nlevel_max=" << lmax << "\nbx=" << this->b[0] << "\nby=" << this->b[1] << "\nbz=" << this->b[2] << "\n";
    for (int d = 0; d < dim; d++) o << "coarse_oct_resolution_" << A[d] << "=" << this->cgs[d] << "\n";
    o << more;
    conf = std::make_unique<ConfigMap>(o.str());
    auto p = AMRmesh::parse_parameters(*conf);
    mesh = std::make_unique<AMRmesh>(p.dim, p.dim, p.periodic, p.level_min, p.level_max, p.coarse_grid_size);
    fc = std::make_unique<ForeachCell>(*mesh, *conf); U = std::make_unique<UserData>(*conf, *fc);
  }
  long ext(int d) const { return d < dim ? (long)cgs[d] << (lmax - lmin) : 1; }
  // closed boxes of the two octants meet (periodic images included)
  bool touch(const O4& p, const O4& q) const {
    for (int d = 0; d < dim; d++) {
      long wp = 1L << (lmax - p[0]), wq = 1L << (lmax - q[0]), x = p[d + 1] * wp, y = q[d + 1] * wq, n = ext(d); bool t = false;
      for (int k = -1; k <= 1; k++) if (k == 0 || per[d]) if (x <= y + wq + k * n && y + k * n <= x + wp) t = true;
      if (!t) return false;
    }
    return true;
  }
  // exact tiling and 2:1 balance
  void check_mesh(const std::vector<O4>& m, const char* what = "mesh") {
    long vol = 0, tot = ext(0) * ext(1) * ext(2); std::set<O4> s(m.begin(), m.end());
    for (auto& o : m) { long w = 1L << (lmax - o[0]); vol += dim == 3 ? w * w * w : w * w; }
    if (vol != tot || s.size() != m.size()) { fail(what); return; }
    for (auto& p : m) for (auto& q : m) if (p[0] > q[0] + 1 && touch(p, q)) { fail("2:1"); return; }
  }
  O4 oct(uint32_t i, bool ghost = false) const {
    const LightOctree& lm = mesh->getLightOctree(); auto c = lm.getCorner({i, ghost}); auto s = lm.getSize({i, ghost});
    return {lm.getLevel({i, ghost}), (int)std::lround(c[0] / s[0]), (int)std::lround(c[1] / s[1]), dim == 3 ? (int)std::lround(c[2] / s[2]) : 0};
  }
  std::vector<O4> all(std::vector<int>* owner = nullptr) const {
    mesh->getLightOctree(); // (collective)
    int n = mesh->getNumOctants() * 4; std::vector<int> mine; for (uint32_t i = 0; i < mesh->getNumOctants(); i++) for (int v : oct(i)) mine.push_back(v);
    std::vector<int> cnt(np), off(np); MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
    int t = 0; for (int r = 0; r < np; r++) { off[r] = t; t += cnt[r]; }
    std::vector<int> g(t); MPI_Allgatherv(mine.data(), n, MPI_INT, g.data(), cnt.data(), off.data(), MPI_INT, MPI_COMM_WORLD);
    std::vector<O4> res; for (int i = 0; i < t; i += 4) res.push_back({g[i], g[i + 1], g[i + 2], g[i + 3]});
    if (owner) { owner->clear(); for (int r = 0; r < np; r++) for (int i = 0; i < cnt[r] / 4; i++) owner->push_back(r); }
    return res;
  }
  // marker f(octant) for every octant, then adapt
  void adapt(const std::function<int(const O4&)>& f) { mesh->getLightOctree(); for (uint32_t i = 0; i < mesh->getNumOctants(); i++) mesh->setMarker(i, mark(oct(i), f)); mesh->adapt(); mesh->getLightOctree(); }
  int mark(const O4& o, const std::function<int(const O4&)>& f) const { int m = f(o); return (m > 0 && o[0] >= lmax) || (m < 0 && o[0] <= lmin) ? 0 : m; }
  void fail(const char* what) { if (!bad) fprintf(stderr, "rank %d: %s\n", rank, what); bad++; }
  int result() { int t = 0; MPI_Allreduce(&bad, &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); if (rank == 0) printf("%s (%d)\n", t ? "BROKEN" : "OK", t); fflush(stdout); return t ? 1 : 0; }
};
inline unsigned rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 8; }

inline unsigned hsh(std::initializer_list<int> l) { unsigned long h = 1469598103934665603UL; for (int v : l) { h ^= (unsigned)v; h *= 1099511628211UL; h ^= h >> 29; } return (unsigned)(h >> 16); }
