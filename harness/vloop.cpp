// vloop: runs the real time loop (DyabloTimeLoop) on a list of configurations.  Modules registered here under the
// names vd_* observe the loop from inside (every call of a module is one event with the projected global state), some
// of them wrapping the real module they stand for, some of them replacing it by exact integer arithmetic.
//   vloop <list>      every line: <directory> <ini file> <trace file> <label>
#include <mpi.h>
#include <hdf5.h>
#include <sys/stat.h>
#include <csignal>
#include <unistd.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include "DyabloSession.hpp"
#include "utils/config/ConfigMap.h"
#include "DyabloTimeLoop.h"
#include "foreach_cell/ForeachCell_utils.h"

namespace vl {
using namespace dyablo;
typedef ForeachCell::CellIndex CI;
int rank_, np_;
FILE* out = nullptr;
std::string label;

inline uint64_t mix(uint64_t h) { h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ULL; h ^= h >> 33; return h; }
template <typename... A> inline uint64_t hash(A... a) { uint64_t h = 0x9e3779b97f4a7c15ULL; ((h = mix(h * 31 + (uint64_t)a + 0x1234567ULL)), ...); return h; }
inline uint64_t hstr(const std::string& s) { uint64_t h = 7; for (char c : s) h = mix(h * 131 + (unsigned char)c); return h; }
inline uint64_t bits(double d) { if (d == 0) d = 0; uint64_t u; memcpy(&u, &d, 8); return u; }
inline int h31(uint64_t h) { return (int)(h & 0x7fffffff); }
constexpr double SC = 1. + 1. / (1 << 22);
inline long dval(double x) { long v = std::isfinite(x) && std::fabs(x) < 2000000000. ? std::lround(x / SC) : -2000000001L; return v * SC == x ? v : -2000000001L; }
std::string jstr(const std::string& s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
struct Join { std::string s; void add(const std::string& x) { if (!s.empty()) s += ','; s += x; } void add(long v) { add(std::to_string(v)); } std::string arr() const { return "[" + s + "]"; } };

std::vector<int> gatheri(const std::vector<int>& mine, std::vector<int>* counts = nullptr) {
  int n = mine.size();
  std::vector<int> sz(np_), off(np_);
  MPI_Gather(&n, 1, MPI_INT, sz.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  int tot = 0;
  if (rank_ == 0) for (int i = 0; i < np_; i++) { off[i] = tot; tot += sz[i]; }
  std::vector<int> r(tot + 1);
  MPI_Gatherv(mine.data(), n, MPI_INT, r.data(), sz.data(), off.data(), MPI_INT, 0, MPI_COMM_WORLD);
  r.resize(tot);
  if (counts) *counts = sz;
  return r;
}
// rows of width w, with the rank prepended, from all ranks, sorted by (columns, rank)
std::vector<std::vector<int>> rows(const std::vector<int>& mine, int w) {
  std::vector<int> cnt, all = gatheri(mine, &cnt);
  std::vector<std::vector<int>> r;
  size_t p = 0;
  for (int k = 0; k < (int)cnt.size() && rank_ == 0; k++)
    for (int i = 0; i < cnt[k]; i += w) { std::vector<int> x(all.begin() + p, all.begin() + p + w); x.push_back(k); r.push_back(x); p += w; }
  std::sort(r.begin(), r.end());
  return r;
}
std::string jrow(const std::vector<int>& v, int a, int b) { Join j; for (int i = a; i < b; i++) j.add(v[i]); return j.arr(); }
std::string tbits(double d) {   // order preserving for non negative numbers
  uint64_t u = bits(d);
  return "[" + std::to_string(u >> 42) + "," + std::to_string((u >> 21) & 0x1fffff) + "," + std::to_string(u & 0x1fffff) + "]";
}
long dyad(double d) { double q = d * 1048576.; return std::fabs(q) < 2e9 && q == std::floor(q) ? (long)q : -2000000001L; }

struct G { int dim, lmin, lmax, b[3], cgs[3], per[3]; double lo[3], hi[3]; long seed; } g;
struct Oct { int l, x, y, z; };
Oct oct_at(int l, const double* c) {
  Oct o; o.l = l; int* q[3] = {&o.x, &o.y, &o.z};
  for (int d = 0; d < 3; d++) *q[d] = d < g.dim ? (int)std::lround(c[d] * g.cgs[d] * std::pow(2., l - g.lmin)) : 0;
  return o;
}
Oct oct_local(AMRmesh& m, uint32_t i) { auto c = m.getCoordinates(i); return oct_at(m.getLevel(i), c.data()); }
Oct oct_ghost(AMRmesh& m, uint32_t i) { auto c = m.getCoordinatesGhost(i); return oct_at(m.getLevelGhost(i), c.data()); }

int cells_per_oct() { return g.b[0] * g.b[1] * (g.dim == 3 ? g.b[2] : 1); }

// every cell of one field, [local octant][linear cell index]
std::vector<std::vector<double>> values(const UserData& U, ForeachCell& fc, const std::string& f) {
  uint32_t n = fc.get_amr_mesh().getNumOctants();
  std::vector<std::vector<double>> v(n, std::vector<double>(cells_per_oct(), 0. / 0.));
  auto* pv = &v;
  enum { I };
  auto a = U.getAccessor({{f, I}});
  int bx = g.b[0], by = g.b[1];
  fc.foreach_cell("vl::values", a.getShape(), KOKKOS_LAMBDA(const CI& c) { (*pv)[c.iOct.iOct][c.i + bx * (c.j + by * c.k)] = a.at(c, I); });
  return v;
}
bool want(const std::string& l, const std::string& k) { return ("," + l + ",").find("," + k + ",") != std::string::npos; }

std::string vals_of;   // fields whose integer values are recorded at outputs, "" for none
std::string mesh_state(AMRmesh& m, const std::vector<std::pair<std::string, std::vector<int>>>& cols) {
  std::vector<int> mine;
  uint32_t n = m.getNumOctants();
  int w = 4 + cols.size();
  for (uint32_t i = 0; i < n; i++) { Oct o = oct_local(m, i); mine.insert(mine.end(), {o.l, o.x, o.y, o.z}); for (auto& c : cols) mine.push_back(c.second[i]); }
  auto R = rows(mine, w);
  Join jo, jw; std::vector<Join> jc(cols.size());
  for (auto& r : R) { jo.add(jrow(r, 0, 4)); jw.add(r[w] + 1); for (size_t k = 0; k < cols.size(); k++) jc[k].add(r[4 + k]); }
  std::string s = "\"oct\":" + jo.arr() + ",\"own\":" + jw.arr() + ",\"f\":{";
  for (size_t k = 0; k < cols.size(); k++) s += (k ? "," : "") + jstr(cols[k].first) + ":" + jc[k].arr();
  return s + "}";
}
std::string state(const UserData& U, ForeachCell& fc) {
  AMRmesh& m = fc.get_amr_mesh();
  std::vector<std::pair<std::string, std::vector<int>>> cols;
  for (const std::string& f : U.getEnabledFields()) {
    auto v = values(U, fc, f);
    std::vector<int> c;
    for (auto& o : v) { uint64_t h = 1; for (double x : o) h = hash(h, bits(x)); c.push_back(h31(h)); }
    cols.push_back({f, c});
  }
  std::string s = "{" + mesh_state(m, cols) + ",\"pa\":{";
  bool first = true;
  for (const std::string& an : U.getEnabledParticleArrays()) {
    auto P = U.getParticleArray(an);
    auto at = U.getEnabledParticleAttributes(an);
    std::vector<std::vector<double>> col;
    uint32_t n = P.getNumParticles();
    Join names;
    for (auto& t : at) {
      names.add(jstr(t));
      auto a = U.getParticleAccessor(an, {{t, 0}});
      std::vector<double> c(n); for (uint32_t i = 0; i < n; i++) c[i] = a.at(i, 0);
      col.push_back(c);
    }
    std::vector<int> mine;
    ComponentIndex3D D[3] = {IX, IY, IZ};
    for (uint32_t i = 0; i < n; i++) {
      uint64_t h = 5;
      for (int d = 0; d < 3; d++) {
        double p = P.pos(i, D[d]); if (d < g.dim) h = hash(h, bits(p));
        // finest octant that contains the particle
        mine.push_back(d < g.dim ? (int)std::floor((p - g.lo[d]) / (g.hi[d] - g.lo[d]) * g.cgs[d] * (1 << (g.lmax - g.lmin))) : 0);
      }
      mine.push_back(h31(h));
      for (auto& c : col) mine.push_back(h31(hash(9, bits(c[i]))));
    }
    int w = 4 + col.size();
    auto R = rows(mine, w);
    Join jp, jr;
    for (auto& r : R) { jp.add(jrow(r, 0, w)); jr.add(r[w] + 1); }
    s += (first ? "" : ",") + jstr(an) + ":{\"at\":" + names.arr() + ",\"v\":" + jp.arr() + ",\"own\":" + jr.arr() + "}";
    first = false;
  }
  return s + "}}";
}
std::string clock_(ScalarSimulationData* sd, const char* key = "") {
  int it = 0; double t = 0, dt = -1;
  if (sd) { it = sd->get<int>("iter"); t = sd->get<real_t>("time"); sd->foreach_var([&](const std::string& n, auto v) { if (n == "dt") dt = v; }); }
  // what every process believes
  uint64_t ut = bits(t), ud = bits(dt);
  std::vector<int> mine = {it, h31(hash(ut)), h31(hash(ud))};
  auto all = gatheri(mine);
  Join ag; for (size_t i = 0; i + 2 < all.size(); i += 3) ag.add("[" + std::to_string(all[i]) + "," + std::to_string(all[i + 1]) + "," + std::to_string(all[i + 2]) + "]");
  return "\"iter\":" + std::to_string(it) + ",\"t\":" + std::to_string(dyad(t)) + ",\"tb\":" + tbits(t) + ",\"dt\":" + std::to_string(dyad(dt)) + ",\"dtb\":" + tbits(std::fabs(dt)) + ",\"ag\":" + ag.arr();
}
void emit(const std::string& op, const std::string& body) {
  if (rank_ == 0) { std::string l = "{\"op\":\"" + op + "\"," + body + "}\n"; fwrite(l.data(), 1, l.size(), out); fflush(out); }
}
void event(const std::string& op, ScalarSimulationData* sd, const std::string& extra, const std::string& st) {
  alarm(30);
  std::string c = clock_(sd);
  emit(op, c + (extra.empty() ? "" : "," + extra) + (st.empty() ? "" : ",\"st\":" + st));
}

// ------------------------------------------------------------------ what was written
template <typename T> std::vector<T> rd(hid_t ds, hid_t ty, size_t n) { std::vector<T> v(n + 1); if (n) H5Dread(ds, ty, H5S_ALL, H5S_ALL, H5P_DEFAULT, v.data()); v.resize(n); return v; }
// the finest node lattice, in units of half a finest cell
long node(int d, double x) {
  if (d >= g.dim) return x == g.lo[d] || x == 0 ? 0 : -1;
  double n = 2. * g.cgs[d] * (1L << (g.lmax - g.lmin)) * g.b[d], q = (x - g.lo[d]) / (g.hi[d] - g.lo[d]) * n;
  long k = std::lround(q); return std::fabs(q - k) < 1e-3 ? k : -1;
}
std::string read_h5(const std::string& fn, bool particles) {
  std::string r = "{\"name\":" + jstr(fn.substr(fn.find_last_of('/') + 1));
  H5E_auto2_t ef; void* ed; H5Eget_auto2(H5E_DEFAULT, &ef, &ed); H5Eset_auto2(H5E_DEFAULT, nullptr, nullptr);
  hid_t f = H5Fopen(fn.c_str(), H5F_ACC_RDONLY, H5P_DEFAULT);
  H5Eset_auto2(H5E_DEFAULT, ef, ed);
  if (f < 0) return r + ",\"exists\":0}";
  r += ",\"exists\":1,\"ds\":{";
  std::vector<std::string> names;
  H5Literate(f, H5_INDEX_NAME, H5_ITER_NATIVE, nullptr, [](hid_t, const char* n, const H5L_info_t*, void* p) { static_cast<std::vector<std::string>*>(p)->push_back(n); return (herr_t)0; }, &names);
  bool first = true;
  for (auto& n : names) {
    H5O_info_t oi;
    if (H5Oget_info_by_name(f, n.c_str(), &oi, H5P_DEFAULT) < 0) continue;
    if (oi.type != H5O_TYPE_DATASET) continue;
    hid_t d = H5Dopen2(f, n.c_str(), H5P_DEFAULT), sp = H5Dget_space(d), ty = H5Dget_type(d);
    int nd = H5Sget_simple_extent_ndims(sp); std::vector<hsize_t> dim(nd); H5Sget_simple_extent_dims(sp, dim.data(), nullptr);
    size_t tot = 1; Join jd; for (auto x : dim) { tot *= x; jd.add(x); }
    bool fl = H5Tget_class(ty) == H5T_FLOAT; int sz = H5Tget_size(ty);
    Join jv;
    if (fl) {
      auto v = rd<double>(d, H5T_NATIVE_DOUBLE, tot);
      for (size_t i = 0; i < tot; i++) {
        long k;
        if (n == "coordinates" && !particles) k = node(i % 3, v[i]);
        else if (n == "coordinates") { double p = (v[i] - g.lo[i % 3]) / (g.hi[i % 3] - g.lo[i % 3]) * 8 * g.cgs[i % 3] * (1 << (g.lmax - g.lmin)); k = (int)(i % 3) < g.dim ? (long)std::floor(p) : 0; }
        else { k = std::lround(v[i] / SC); if ((sz == 4 ? (double)(float)(k * SC) : k * SC) != v[i]) k = -2000000001L; }
        jv.add(k);
      }
    } else { auto v = rd<int64_t>(d, H5T_NATIVE_INT64, tot); for (auto x : v) jv.add(x > 2000000000 ? -5 : (long)x); }
    std::string body = jv.arr();
    if (nd == 2) {   // one row per entry
      Join jr; std::istringstream is(jv.s); std::string tok; Join row; size_t k = 0;
      while (std::getline(is, tok, ',')) { row.add(tok); if (++k % dim[1] == 0) { jr.add(row.arr()); row = Join(); } }
      body = jr.arr();
    }
    r += (first ? "" : ",") + jstr(n) + ":{\"dim\":" + jd.arr() + ",\"fl\":" + std::to_string(fl) + ",\"sz\":" + std::to_string(sz) + ",\"v\":" + body + "}";
    first = false;
    H5Tclose(ty); H5Sclose(sp); H5Dclose(d);
  }
  r += "}";
  hid_t gr = H5Lexists(f, "scalar_data", H5P_DEFAULT) > 0 ? H5Gopen2(f, "scalar_data", H5P_DEFAULT) : -1;
  if (gr >= 0) {
    int it = -1; double t = -1;
    for (auto p : {std::make_pair("iter", 0), std::make_pair("time", 1)}) {
      if (H5Aexists(gr, p.first) <= 0) continue;
      hid_t a = H5Aopen(gr, p.first, H5P_DEFAULT);
      if (p.second == 0) H5Aread(a, H5T_NATIVE_INT, &it); else H5Aread(a, H5T_NATIVE_DOUBLE, &t);
      H5Aclose(a);
    }
    r += ",\"iter\":" + std::to_string(it) + ",\"tb\":" + tbits(t);
    H5Gclose(gr);
  }
  H5Fclose(f);
  return r + "}";
}
// integer values of every cell / particle, for the comparison with the files
std::string memory(const UserData& U, ForeachCell& fc) {
  AMRmesh& m = fc.get_amr_mesh();
  int nc = cells_per_oct();
  std::vector<std::string> fs;
  for (const std::string& f : U.getEnabledFields()) fs.push_back(f);
  std::vector<std::vector<std::vector<double>>> v;
  for (auto& f : fs) v.push_back(values(U, fc, f));
  std::vector<int> mine; int w = 4 + nc * fs.size();
  for (uint32_t i = 0; i < m.getNumOctants(); i++) {
    Oct o = oct_local(m, i); mine.insert(mine.end(), {o.l, o.x, o.y, o.z});
    for (auto& x : v) for (double y : x[i]) mine.push_back((int)dval(y));
  }
  auto R = rows(mine, w);
  std::string s = "{\"f\":{";
  for (size_t k = 0; k < fs.size(); k++) { Join j; for (auto& r : R) j.add(jrow(r, 4 + nc * k, 4 + nc * (k + 1))); s += (k ? "," : "") + jstr(fs[k]) + ":" + j.arr(); }
  s += "},\"pa\":{"; bool first = true;
  for (const std::string& an : U.getEnabledParticleArrays()) {
    auto P = U.getParticleArray(an);
    std::vector<int> pm; ComponentIndex3D D[3] = {IX, IY, IZ};
    Join names; std::vector<std::vector<double>> col; uint32_t n = P.getNumParticles();
    for (auto& t : U.getEnabledParticleAttributes(an)) { names.add(jstr(t)); auto a = U.getParticleAccessor(an, {{t, 0}}); std::vector<double> c(n); for (uint32_t i = 0; i < n; i++) c[i] = a.at(i, 0); col.push_back(c); }
    for (uint32_t i = 0; i < n; i++) {
      for (int d = 0; d < 3; d++) pm.push_back(d < g.dim ? (int)std::floor((P.pos(i, D[d]) - g.lo[d]) / (g.hi[d] - g.lo[d]) * 8 * g.cgs[d] * (1 << (g.lmax - g.lmin))) : 0);
      for (auto& c : col) pm.push_back((int)dval(c[i]));
    }
    int pw = 3 + col.size(); auto PR = rows(pm, pw); Join jp; for (auto& r : PR) jp.add(jrow(r, 0, pw));
    s += (first ? "" : ",") + jstr(an) + ":{\"at\":" + names.arr() + ",\"v\":" + jp.arr() + "}"; first = false;
  }
  return s + "}}";
}

struct Base {
  ForeachCell& fc; ConfigMap& cm; Timers& tm;
  std::string sec(const std::string& k, const std::string& d) { return cm.getValue<std::string>("vd", k, d); }
};
long field_value(long seed, const std::string& f, const Oct& o, int c) { return 1 + hash(seed, hstr(f), o.l, o.x, o.y, o.z, c) % 1000; }
double lat(int d, long q) { long nf = d < g.dim ? (long)g.cgs[d] * (1L << (g.lmax - g.lmin)) * 8 : 1; return g.lo[d] + (g.hi[d] - g.lo[d]) * ((q + 0.5) / nf); }
long unlat(int d, double p) { long nf = (long)g.cgs[d] * (1L << (g.lmax - g.lmin)) * 8; return std::lround((p - g.lo[d]) / (g.hi[d] - g.lo[d]) * nf - 0.5); }

struct Init : InitialConditions, Base {
  Init(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {}
  void init(UserData& U) override {
    AMRmesh& m = fc.get_amr_mesh();
    int passes = cm.getValue<int>("vd", "passes", g.lmax - g.lmin), pct = cm.getValue<int>("vd", "pct", 35);
    for (int p = 0; p < passes; p++) {
      for (uint32_t i = 0; i < m.getNumOctants(); i++) { Oct o = oct_local(m, i); if ((int)(hash(g.seed, p, o.l, o.x, o.y, o.z) % 100) < pct) m.setMarker(i, 1); }
      m.adapt();
      if (cm.getValue<int>("vd", "init_lb", 1)) m.loadBalance();
    }
    std::set<std::string> fs = {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"};
    std::istringstream is(sec("extra", "")); std::string x;
    while (std::getline(is, x, '+')) if (!x.empty()) fs.insert(x);
    U.new_fields(fs);
    int bx = g.b[0], by = g.b[1]; long seed = g.seed; AMRmesh* pm = &m;
    for (auto& f : fs) {
      enum { I }; auto a = U.getAccessor({{f, I}});
      fc.foreach_cell("vl::init", a.getShape(), KOKKOS_LAMBDA(const CI& c) { a.at(c, I) = SC * field_value(seed, f, oct_local(*pm, c.iOct.iOct), c.i + bx * (c.j + by * c.k)); });
    }
    for (int k = 0; k < 2; k++) {
      long n = cm.getValue<int>("vd", k ? "naux" : "npart", 0);
      if (n < 0) continue;
      std::string an = k ? "aux" : "particles";
      if (k && n == 0) continue;
      if (!k && n == 0) continue;
      long a = n * rank_ / np_, b = n * (rank_ + 1) / np_;
      U.new_ParticleArray(an, b - a);
      U.new_ParticleAttribute(an, "id"); U.new_ParticleAttribute(an, "m");
      auto P = U.getParticleArray(an);
      auto A = U.getParticleAccessor(an, {{"id", 0}, {"m", 1}});
      ComponentIndex3D D[3] = {IX, IY, IZ};
      for (long i = a; i < b; i++) {
        for (int d = 0; d < 3; d++) { long nf = d < g.dim ? (long)g.cgs[d] * (1L << (g.lmax - g.lmin)) * 8 : 1; P.pos(i - a, D[d]) = lat(d, hash(g.seed, k, 3, i, d) % (uint64_t)nf); }
        A.at(i - a, 0) = SC * i; A.at(i - a, 1) = SC * (1 + hash(g.seed, k, 4, i) % 1000);
      }
      U.distributeParticles(an);
    }
  }
};
struct Snap : InitialConditions, Base {   // last initial condition: only looks
  Snap(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {}
  void init(UserData& U) override { event("init", nullptr, "", state(U, fc)); }
};
template <int CK> struct IO : IOManager, Base {
  std::unique_ptr<IOManager> in; int n = 0; bool files;
  IO(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {
    in = IOManagerFactory::make_instance(sec(CK ? "checkpoint" : "backend", CK ? "IOManager_checkpoint" : "none"), c, f, t);
    files = cm.getValue<int>("vd", "files", 0);
  }
  void save_snapshot(const UserData& U, ScalarSimulationData& sd) override {
    std::string st = state(U, fc), x = "\"n\":" + std::to_string(n++);
    if (in) in->save_snapshot(U, sd);
    MPI_Barrier(MPI_COMM_WORLD);
    if (!CK && in && files) {
      std::string mem = memory(U, fc);
      if (rank_ == 0) {
        char it[32]; int iter = sd.get<int>("iter");
        std::string dir = cm.getValue<std::string>("output", "outputDir", "."), pre = cm.getValue<std::string>("output", "outputPrefix", "output");
        std::ostringstream o; o << "_iter"; o.width(7); o.fill('0'); o << iter;
        std::string f = read_h5(dir + "/" + pre + o.str() + ".h5", false), pf;
        for (const std::string& an : U.getEnabledParticleArrays()) pf += (pf.empty() ? "" : ",") + jstr(an) + ":" + read_h5(dir + "/" + pre + "_particles_" + an + o.str() + ".h5", true);
        x += ",\"base\":" + jstr(pre + o.str()) + ",\"file\":" + f + ",\"pfile\":{" + pf + "},\"mem\":" + mem; (void)it;
      }
      MPI_Barrier(MPI_COMM_WORLD);
    }
    event(CK ? "ckpt" : "out", &sd, x, st);
  }
};
template <int K> struct Dt : Compute_dt, Base {
  std::unique_ptr<Compute_dt> in; std::string kind;
  Dt(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {
    kind = sec("dt" + std::to_string(K), "table");
    if (kind != "table") in = Compute_dtFactory::make_instance(kind, c, f, t);
  }
  void compute_dt(const UserData& U, ScalarSimulationData& sd) override {
    double before = -1; sd.foreach_var([&](const std::string& n, auto v) { if (n == "dt") before = v; });
    if (in) in->compute_dt(U, sd);
    else {
      uint64_t h = hash(g.seed, 11, K, sd.get<int>("iter"));
      real_t dt = (1 + h % 64) / 1024.;
      sd.set("dt", dt);
    }
    int sig = 0;   // an interruption arrives while the step is running
    if (K == 1 && cm.getValue<int>("vd", "sigint_iter", -1) == sd.get<int>("iter")) {
      int r = cm.getValue<int>("vd", "sigint_rank", 0); sig = 1;
      if (r < 0 || r % np_ == rank_) raise(SIGINT);
    }
    event("dt", &sd, "\"k\":" + std::to_string(K) + ",\"sig\":" + std::to_string(sig), K == 1 ? state(U, fc) : "");
  }
};
struct Hydro : HydroUpdate, Base {
  std::unique_ptr<HydroUpdate> in; std::string kind;
  Hydro(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {
    kind = sec("hydro", "ring");
    if (kind != "ring") in = HydroUpdateFactory::make_instance(kind, c, f, t);
  }
  void update(UserData& U, ScalarSimulationData& sd) override {
    std::string pre = state(U, fc);
    if (in) in->update(U, sd);
    else {
      long k = dyad(sd.get<real_t>("dt"));
      int dim = g.dim;
      for (std::string f : {"rho", "e_tot", "rho_vx", "rho_vy", "rho_vz"}) {
        enum { I, J }; auto a = U.getAccessor({{f, I}, {f + "_next", J}});
        auto sh = a.getShape();
        long hf = hstr(f) % 17;
        auto val = [=](const CI& c) { return (long)std::lround(a.at(c, I) / SC); };
        fc.foreach_cell("vl::hydro", sh, KOKKOS_LAMBDA(const CI& c) {
          long s = 3 * val(c) + k + hf;
          for (int d = 0; d < dim; d++)
            for (int e = -1; e <= 1; e += 2) {
              CI::offset_t off{}; off[d] = e;
              CI n = c.getNeighbor_ghost(off, sh);
              if (n.is_boundary()) { s += 7 * (d + 1); continue; }
              long w = 5 * d + 2 * e + 11;
              if (n.level_diff() >= 0) s += w * val(n);
              else {
                auto q = [&](const CI& m) { s += (w + 1) * val(m); };
                if (dim == 2) foreach_smaller_neighbor<2>(n, off, sh, q); else foreach_smaller_neighbor<3>(n, off, sh, q);
              }
            }
          a.at(c, J) = SC * (s % 100003);
        });
      }
    }
    event("hyd", &sd, "\"pre\":" + pre, state(U, fc));
  }
};
// source terms: change the result of the hydro step in place
inline void source(UserData& U, ForeachCell& fc, long w) {
  enum { I, J }; auto a = U.getAccessor({{"rho", I}, {"e_tot_next", J}});
  fc.foreach_cell("vl::source", a.getShape(), KOKKOS_LAMBDA(const CI& c) { a.at(c, J) = SC * ((w * (long)std::lround(a.at(c, J) / SC) + (long)std::lround(a.at(c, I) / SC) + w) % 100003); });
}
struct Para : ParabolicUpdate, Base {
  ParabolicTermType term;
  Para(ConfigMap& c, ForeachCell& f, Timers& t, ParabolicTermType k) : Base{f, c, t}, term(k) {}
  void update(UserData& U, ScalarSimulationData& sd) override {
    std::string pre = state(U, fc); source(U, fc, term == PARABOLIC_VISCOSITY ? 3 : 5);
    event(term == PARABOLIC_VISCOSITY ? "visc" : "cond", &sd, "\"pre\":" + pre, state(U, fc));
  }
};
struct Cool : CoolingUpdate, Base {
  Cool(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {}
  void update(UserData& U, ScalarSimulationData& sd) override {
    std::string pre = state(U, fc); source(U, fc, 7);
    event("cool", &sd, "\"pre\":" + pre, state(U, fc));
  }
};
// particles added to the density, only while gravity is computed
struct Dens : ParticleUpdate, Base {
  Dens(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {}
  void update(UserData& U, ScalarSimulationData& sd) override {
    std::string pre = state(U, fc);
    enum { I, J }; auto a = U.getAccessor({{"rho", I}, {"rho_g", J}});
    fc.foreach_cell("vl::dens", a.getShape(), KOKKOS_LAMBDA(const CI& c) { a.at(c, J) = SC * ((2 * (long)std::lround(a.at(c, I) / SC) + 17 + c.i) % 100003); });
    event("dens", &sd, "\"pre\":" + pre, state(U, fc));
  }
};
struct Grav : GravitySolver, Base {
  bool first; std::string type;
  Grav(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} {
    first = c.getValue<std::string>("run", "initial_conditions", "").find("restart") == std::string::npos;
    type = c.getValue<std::string>("gravity", "gravity_type", "none");
  }
  void update_gravity_field(UserData& U, ScalarSimulationData& sd) override {
    std::string pre = state(U, fc);
    if (type == "field" || type == "constant_field") {   // every cell from the last potential of its neighbours
      enum { IR, IP, IX_, IY_, IZ_, IN }; bool f0 = first; int dim = g.dim;
      U.new_fields({"vd_new"});
      auto a = U.getAccessor({{"rho", IR}, {"gphi", IP}, {"gx", IX_}, {"gy", IY_}, {"gz", IZ_}, {"vd_new", IN}}); auto sh = a.getShape();
      auto val = [=](const CI& c) { return f0 ? 3L : (long)std::lround(a.at(c, IP) / SC); };
      fc.foreach_cell("vl::grav", sh, KOKKOS_LAMBDA(const CI& c) {
        long s = 3 * val(c) + (long)std::lround(a.at(c, IR) / SC);
        for (int d = 0; d < dim; d++)
          for (int e = -1; e <= 1; e += 2) {
            CI::offset_t off{}; off[d] = e; CI n = c.getNeighbor_ghost(off, sh);
            if (n.is_boundary()) continue;
            if (n.level_diff() >= 0) s += (d + e + 4) * val(n);
            else { auto q = [&](const CI& m) { s += (d + 2 * e + 7) * val(m); }; if (dim == 2) foreach_smaller_neighbor<2>(n, off, sh, q); else foreach_smaller_neighbor<3>(n, off, sh, q); }
          }
        a.at(c, IN) = SC * (s % 100003); a.at(c, IX_) = SC * ((s + 1) % 101); a.at(c, IY_) = SC * ((s + 2) % 103); a.at(c, IZ_) = SC * ((s + 3) % 107);
      });
      U.move_field("gphi", "vd_new");
    }
    first = false;
    event("grav", &sd, "\"pre\":" + pre, state(U, fc));
  }
};
struct Move : ParticleUpdate, Base {
  std::unique_ptr<ParticleUpdate> in;
  Move(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} { std::string k = sec("move", "lattice"); if (k != "lattice") in = ParticleUpdateFactory::make_instance(k, c, f, t); }
  void update(UserData& U, ScalarSimulationData& sd) override {
    std::string pre = state(U, fc);
    if (in) in->update(U, sd);
    else if (U.has_ParticleArray("particles")) {
      auto P = U.getParticleArray("particles");
      auto A = U.getParticleAccessor("particles", {{"id", 0}, {"m", 1}});
      int it = sd.get<int>("iter"); ComponentIndex3D D[3] = {IX, IY, IZ};
      for (uint32_t i = 0; i < P.getNumParticles(); i++) {
        long id = std::lround(A.at(i, 0) / SC);
        for (int d = 0; d < g.dim; d++) {
          long nf = (long)g.cgs[d] * (1L << (g.lmax - g.lmin)) * 8, q = unlat(d, P.pos(i, D[d]));
          q = ((q + (long)(hash(g.seed, 21, id, it, d) % 41) - 20) % nf + nf) % nf;
          P.pos(i, D[d]) = lat(d, q);
        }
        A.at(i, 1) = SC * ((std::lround(A.at(i, 1) / SC) * 5 + id + it) % 10007);
      }
    }
    event("move", &sd, "\"pre\":" + pre, state(U, fc));
  }
};
struct Ref : RefineCondition, Base {
  std::unique_ptr<RefineCondition> in;
  Ref(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} { std::string k = sec("refine", "hash"); if (k != "hash") in = RefineConditionFactory::make_instance(k, c, f, t); }
  void mark_cells(UserData& U, ScalarSimulationData& sd) override {
    AMRmesh& m = fc.get_amr_mesh();
    std::string pre = state(U, fc); std::vector<int> mks;
    if (in) in->mark_cells(U, sd);
    else {
      auto v = values(U, fc, "rho");
      int it = sd.get<int>("iter"), up = cm.getValue<int>("vd", "up", 15), down = cm.getValue<int>("vd", "down", 60);
      // whole families want to coarsen, sometimes: the draw depends on the parent
      for (uint32_t i = 0; i < m.getNumOctants(); i++) {
        Oct o = oct_local(m, i); long s = 0; for (double x : v[i]) s += std::lround(x / SC);
        int r = hash(g.seed, it, s, o.l, o.x, o.y, o.z) % 100, q = hash(g.seed, it, 5, o.l, o.x >> 1, o.y >> 1, o.z >> 1) % 100;
        int mk = r < up && o.l < g.lmax ? 1 : (q < down && o.l > g.lmin ? -1 : 0);
        if (mk) { m.setMarker(i, mk); mks.insert(mks.end(), {o.l, o.x, o.y, o.z, mk}); }
      }
    }
    auto R = rows(mks, 5); Join j; for (auto& r : R) j.add(jrow(r, 0, 5));
    event("ref", &sd, in ? std::string("\"known\":0,\"marks\":[]") : "\"known\":1,\"marks\":" + j.arr(), pre);
  }
};
struct Map : MapUserData, Base {
  std::unique_ptr<MapUserData> in;
  Map(ConfigMap& c, ForeachCell& f, Timers& t) : Base{f, c, t} { in = MapUserDataFactory::make_instance("MapUserData_mean", c, f, t); }
  void save_old_mesh() override { emit("sav", "\"k\":1,\"iter\":-1," + mesh_state(fc.get_amr_mesh(), {})); in->save_old_mesh(); }
  void remap(UserData& U) override {
    std::string ms = mesh_state(fc.get_amr_mesh(), {});
    in->remap(U);
    emit("rem", "\"k\":1,\"iter\":-1,\"st\":" + state(U, fc));
  }
};

void run(const std::string& dir, const std::string& ini, const std::string& trace, const std::string& lab) {
  label = lab;
  if (chdir(dir.c_str()) != 0) { fprintf(stderr, "cannot enter %s\n", dir.c_str()); MPI_Abort(MPI_COMM_WORLD, 66); }
  if (rank_ == 0) out = fopen(trace.c_str(), "w");
  alarm(30);
  {
    ConfigMap cm = ConfigMap::broadcast_parameters(ini);
    AMRmesh::Parameters p = AMRmesh::parse_parameters(cm);
    g.dim = p.dim; g.lmin = p.level_min; g.lmax = p.level_max;
    const char* A[3] = {"x", "y", "z"};
    for (int d = 0; d < 3; d++) {
      g.b[d] = cm.getValue<int>("amr", std::string("b") + A[d], 0); g.per[d] = p.periodic[d]; g.cgs[d] = d < g.dim ? p.coarse_grid_size[d] : 1;
      g.lo[d] = cm.getValue<real_t>("mesh", std::string(A[d]) + "min", 0.); g.hi[d] = cm.getValue<real_t>("mesh", std::string(A[d]) + "max", 1.);
    }
    if (g.dim == 2) g.b[2] = 1;
    g.seed = cm.getValue<int>("vd", "seed", 1);
    char b[1024];
    snprintf(b, 1024, "\"label\":%s,\"np\":%d,\"dim\":%d,\"cgs\":[%d,%d,%d],\"lmin\":%d,\"lmax\":%d,\"per\":[%d,%d,%d],\"b\":[%d,%d,%d],\"iter\":0",
             jstr(lab).c_str(), np_, g.dim, g.cgs[0], g.cgs[1], g.cgs[2], g.lmin, g.lmax, g.per[0], g.per[1], g.per[2], g.b[0], g.b[1], g.b[2]);
    emit("run", b);
    DyabloTimeLoop loop(cm);
    event("ready", nullptr, "", "");
    loop.run();
    event("end", nullptr, "", "");
  }
  if (rank_ == 0) fclose(out);
  alarm(0);
}
}
FACTORY_REGISTER(dyablo::InitialConditionsFactory, vl::Init, "vd_init")
FACTORY_REGISTER(dyablo::InitialConditionsFactory, vl::Snap, "vd_snap")
FACTORY_REGISTER(dyablo::IOManagerFactory, vl::IO<0>, "vd_io")
FACTORY_REGISTER(dyablo::IOManagerFactory, vl::IO<1>, "vd_ck")
FACTORY_REGISTER(dyablo::Compute_dtFactory, vl::Dt<1>, "vd_dt1")
FACTORY_REGISTER(dyablo::Compute_dtFactory, vl::Dt<2>, "vd_dt2")
FACTORY_REGISTER(dyablo::Compute_dtFactory, vl::Dt<3>, "vd_dt3")
FACTORY_REGISTER(dyablo::HydroUpdateFactory, vl::Hydro, "vd_hydro")
// the loop chooses the ghost width and the extra fields from the name of the kernel: the wrapper of X is called vd_X
namespace vl { template <int> struct HydroN : Hydro { using Hydro::Hydro; }; }
using VHydro0 = vl::HydroN<0>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro0, "vd_HydroUpdate_hancock_oneneighbor")
using VHydro1 = vl::HydroN<1>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro1, "vd_MHDUpdate_hancock_oneneighbor")
using VHydro2 = vl::HydroN<2>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro2, "vd_HydroUpdate_RK2")
using VHydro3 = vl::HydroN<3>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro3, "vd_MHDUpdate_RK2")
using VHydro4 = vl::HydroN<4>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro4, "vd_GLMMHDUpdate_RK2")
using VHydro5 = vl::HydroN<5>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro5, "vd_HydroUpdate_legacy")
using VHydro6 = vl::HydroN<6>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro6, "vd_HydroUpdate_hancock")
using VHydro7 = vl::HydroN<7>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro7, "vd_MHDUpdate_hancock")
using VHydro8 = vl::HydroN<8>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro8, "vd_HydroUpdate_euler")
using VHydro9 = vl::HydroN<9>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro9, "vd_MHDUpdate_euler")
using VHydro10 = vl::HydroN<10>;
FACTORY_REGISTER(dyablo::HydroUpdateFactory, VHydro10, "vd_GLMMHDUpdate_euler")
FACTORY_REGISTER(dyablo::HydroUpdateFactory, vl::HydroN<-1>, "vd_MHD")
FACTORY_REGISTER(dyablo::HydroUpdateFactory, vl::HydroN<-2>, "vd_MHD_GLM")
FACTORY_REGISTER(dyablo::ParticleUpdateFactory, vl::Move, "vd_move")
FACTORY_REGISTER(dyablo::ParticleUpdateFactory, vl::Dens, "vd_dens")
FACTORY_REGISTER(dyablo::GravitySolverFactory, vl::Grav, "vd_grav")
FACTORY_REGISTER(dyablo::ParabolicUpdateFactory, vl::Para, "vd_para")
FACTORY_REGISTER(dyablo::CoolingUpdateFactory, vl::Cool, "vd_cool")
FACTORY_REGISTER(dyablo::RefineConditionFactory, vl::Ref, "vd_ref")
FACTORY_REGISTER(dyablo::MapUserDataFactory, vl::Map, "vd_map")

int main(int argc, char* argv[]) {
  dyablo::DyabloSession session(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &vl::rank_); MPI_Comm_size(MPI_COMM_WORLD, &vl::np_);
  std::ifstream f(argv[1]); std::string l;
  while (std::getline(f, l)) {
    std::istringstream is(l); std::string d, i, t, b; if (!(is >> d >> i >> t >> b)) continue;
    vl::run(d, i, t, b);
  }
  return 0;
}
