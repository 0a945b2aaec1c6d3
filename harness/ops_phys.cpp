// operations on physical kernels whose arithmetic is exact on the lattice: particle-mesh projection (deposit),
// particle motion (pmove), refinement criteria (mark).  Kernels are made through their factories like the time loop does.
#include "vd.hpp"
#include "mpi/GhostCommunicator.h"
#include "particles/ParticleUpdate.h"
#include "refine_condition/RefineCondition.h"
#include "hydro/HydroUpdate.h"
#include "amr/MapUserData.h"
#include "parabolic/ParabolicUpdate.h"
#include "gravity/GravitySolver.h"
#include "cooling/CoolingUpdate.h"
#include "compute_dt/Compute_dt.h"
#include "init/InitialConditions.h"
#include "init/InitialConditions_analytical.h"
#include <array>
namespace vd {
typedef ForeachCell::CellIndex CI;
static int bz() { return C.dim == 3 ? C.bz : 1; }
static int bb(int d) { return d == 0 ? C.bx : d == 1 ? C.by : bz(); }
static double at(int d, long q) { return C.lo[d] + (C.hi[d] - C.lo[d]) * ((q + 0.5) / C.nf(d)); }
static CI ci(uint32_t o, bool gh, int i, int j, int k) {
  return CI{{o, gh}, (uint32_t)i, (uint32_t)j, (uint32_t)k, (uint32_t)C.bx, (uint32_t)C.by, (uint32_t)bz(), CI::LOCAL_TO_BLOCK};
}
template <typename F> static void each(uint32_t n, const F& f) {
  for (uint32_t o = 0; o < n; o++) for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) f(o, i, j, k);
}
static UserData::FieldAccessor acc(const std::vector<std::string>& n) {
  std::vector<UserData::FieldAccessor_FieldInfo> r; int i = 0;
  for (auto& x : n) r.push_back({x, i++});
  return C.U->getAccessor(r);
}
static void fresh(const std::vector<std::string>& n) {
  for (auto& x : n) if (C.U->has_field(x)) C.U->delete_field(x);
  C.U->new_fields(std::set<std::string>(n.begin(), n.end()));
}
static void drop(const std::vector<std::string>& n) { for (auto& x : n) if (C.U->has_field(x)) C.U->delete_field(x); }
static void exchange(const UserData::FieldAccessor& a) { GhostCommunicator gc(*C.mesh, C.U->getShape(), std::min(C.bx, C.by)); gc.exchange_ghosts(a); }
static long cellhash(long seed, const std::string& n, const Oct& q, int i, int j, int k) { return (long)(hash(seed, hstr(n), q.l, q.x, q.y, q.z, i, j, k) >> 1); }
// nearest integer when close to one, a marker otherwise
static long near(double v) {
  if (!std::isfinite(v) || std::fabs(v) > 2.0e9) return -2000000001L;
  long r = std::lround(v);
  return std::fabs(v - r) < 1e-3 ? r : -2000000002L;
}
// the common denominator of all cloud shares
static double unit() {
  double u = 1;
  for (int d = 0; d < C.dim; d++) u *= 2. * (C.F / bb(d)) * (1L << (C.lmax - C.lmin));
  return u * (1 << (C.dim - 1));
}
struct Pos { long q[3]; };
static std::vector<Pos> lattice(const ParticleArray& pa) {
  std::vector<Pos> v(pa.getNumParticles());
  ComponentIndex3D D[3] = {IX, IY, IZ};
  for (uint32_t i = 0; i < v.size(); i++)
    for (int d = 0; d < 3; d++) v[i].q[d] = d < C.dim ? std::lround((pa.pos(i, D[d]) - C.lo[d]) / (C.hi[d] - C.lo[d]) * C.nf(d) - 0.5) : 0;
  return v;
}
static std::string qn(const std::vector<std::string>& v) { Join j; for (auto& x : v) j.add(jstr(x)); return j.arr(); }
static std::string jpos(const Pos& p) { char b[96]; snprintf(b, 96, "%ld,%ld,%ld", p.q[0], p.q[1], p.q[2]); return b; }

static void deposit(const Op& o) {
  std::string A = "particles", mod = o.s("module");
  if (!C.U->has_ParticleArray(A)) { skip(); return; }
  UserData& U = *C.U;
  if (U.has_ParticleAttribute(A, "mass")) U.delete_ParticleAttribute(A, "mass");
  U.new_ParticleAttribute(A, "mass");
  ParticleArray pa = U.getParticleArray(A);
  auto v = lattice(pa);
  auto m = U.getParticleAccessor(A, {{"mass", 0}});
  Join jp;
  for (uint32_t i = 0; i < v.size(); i++) {
    long mass = hash(o.i("seed"), i, C.rank) % 6;
    m.at(i, 0) = (double)mass;
    jp.add("[" + jpos(v[i]) + "," + std::to_string(mass) + "]");
  }
  std::vector<std::string> F = {"rho", "rho_g"};
  fresh(F);
  long seed = o.i("seed");
  { auto a = acc(F);
    each(C.mesh->getNumOctants(), [&](uint32_t oc, int i, int j, int k) { a.at(ci(oc, false, i, j, k), 0) = cellhash(seed, "rho", oct_local(oc), i, j, k) % 100; a.at(ci(oc, false, i, j, k), 1) = 3.25; });
    if (o.i("stale", 0)) each(C.mesh->getNumGhosts(), [&](uint32_t oc, int i, int j, int k) { a.at(ci(oc, true, i, j, k), 0) = 17; a.at(ci(oc, true, i, j, k), 1) = 5.5 + i; });
  }
  ScalarSimulationData sc;
  auto kern = ParticleUpdateFactory::make_instance(mod, *C.conf, *C.fc, C.timers);
  for (int t = 0; t < o.i("times", 1); t++) {
    if (o.i("exch", 0)) exchange(acc(F));
    kern->update(U, sc);
  }
  int same = 1;
  Join oc;
  { auto a = acc(F); double un = unit(); Join c; uint32_t last = 0; bool any = false;
    each(C.mesh->getNumOctants(), [&](uint32_t q, int i, int j, int k) {
      if (any && q != last) { oc.add(c.arr()); c = Join(); }
      any = true; last = q;
      Oct t = oct_local(q);
      double V = 1;
      for (int d = 0; d < 3; d++) V *= (C.hi[d] - C.lo[d]) / ((double)(d < C.dim ? C.cgs[d] : 1) * (1L << (t.l - C.lmin)) * bb(d));
      double r0 = cellhash(seed, "rho", t, i, j, k) % 100;
      if (a.at(ci(q, false, i, j, k), 0) != r0) same = 0;
      c.add(std::to_string(near((a.at(ci(q, false, i, j, k), 1) - r0) * V * un)));
    });
    if (any) oc.add(c.arr());
  }
  drop(F);
  std::string g = gather(oc.arr()), gp = gather(jp.arr()), gs = gather(std::to_string(same));
  emit("deposit", "\"module\":" + jstr(mod) + ",\"p\":" + gp + ",\"mass\":" + g + ",\"same\":" + gs);
}

static void pmove(const Op& o) {
  std::string A = "particles", mod = o.s("module");
  if (!C.U->has_ParticleArray(A)) { skip(); return; }
  UserData& U = *C.U;
  bool cic = mod.find("CIC") != std::string::npos, tr = mod.find("tracers") != std::string::npos;
  for (const char* n : {"vx", "vy", "vz"}) { if (U.has_ParticleAttribute(A, n)) U.delete_ParticleAttribute(A, n); U.new_ParticleAttribute(A, n); }
  ParticleArray pa = U.getParticleArray(A);
  auto v = lattice(pa);
  ComponentIndex3D D[3] = {IX, IY, IZ};
  long seed = o.i("seed");
  double dt = 1. / (double)(1L << o.i("dt", 5)), un = unit();
  auto pv = U.getParticleAccessor(A, {{"vx", 0}, {"vy", 1}, {"vz", 2}});
  auto vel0 = [&](uint32_t i, int d) { return d < C.dim ? (double)(long)(hash(seed, 5, C.rank, i, d) % 7) - 3. : 0.; };
  for (uint32_t i = 0; i < v.size(); i++) for (int d = 0; d < 3; d++) pv.at(i, d) = vel0(i, d);
  std::vector<std::string> F = tr ? std::vector<std::string>{"rho", "rho_vx", "rho_vy", "rho_vz"} : std::vector<std::string>{"gx", "gy", "gz"};
  fresh(F);
  auto val = [&](const Oct& q, int f, int i, int j, int k) -> long {
    long h = cellhash(seed, F[f], q, i, j, k);
    if (tr && f == 0) return 1L << (h % 3);
    if (f - (tr ? 1 : 0) >= C.dim) return 0;
    return h % 9 - 4;
  };
  Join oc;
  { auto a = acc(F); 
    for (uint32_t q = 0; q < C.mesh->getNumOctants(); q++) {
      Oct t = oct_local(q); Join fj;
      for (size_t f = 0; f < F.size(); f++) {
        Join c;
        for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) { long x = val(t, (int)f, i, j, k); a.at(ci(q, false, i, j, k), (int)f) = (double)x; c.add(std::to_string(x)); }
        fj.add(c.arr());
      }
      oc.add(fj.arr());
    }
    exchange(a);
  }
  ScalarSimulationData sc; sc.set<real_t>("dt", dt);
  std::vector<std::array<double, 3>> x0(v.size());
  for (uint32_t i = 0; i < v.size(); i++) for (int d = 0; d < 3; d++) x0[i][d] = pa.pos(i, D[d]);
  ParticleUpdateFactory::make_instance(mod, *C.conf, *C.fc, C.timers)->update(U, sc);
  Join jp;
  ParticleArray pb = U.getParticleArray(A);
  auto pw = U.getParticleAccessor(A, {{"vx", 0}, {"vy", 1}, {"vz", 2}});
  for (uint32_t i = 0; i < v.size(); i++) {
    Join dv, dx; int in = 1;
    for (int d = 0; d < 3; d++) {
      double L = C.hi[d] - C.lo[d], x = pb.pos(i, D[d]) - x0[i][d];
      if (!tr) { if (x > L / 2) x -= L; if (x < -L / 2) x += L; if (!(pb.pos(i, D[d]) >= C.lo[d] && pb.pos(i, D[d]) <= C.hi[d])) in = 0; }
      // tracers: velocity in quarters; others: the acceleration that explains the velocity and the position
      dv.add(std::to_string(tr ? near(pw.at(i, d) - vel0(i, d)) : near((pw.at(i, d) - vel0(i, d)) / dt * un)));
      dx.add(std::to_string(tr ? near(x / dt * 4) : near((x / dt - vel0(i, d)) / dt * un)));
      pb.pos(i, D[d]) = x0[i][d];
    }
    jp.add("[" + jpos(v[i]) + "," + dv.arr() + "," + dx.arr() + "," + std::to_string(in) + "]");
  }
  drop(F);
  std::string g = gather(oc.arr()), gp = gather(jp.arr());
  emit("pmove", "\"module\":" + jstr(mod) + ",\"kind\":" + jstr(tr ? "tracers" : cic ? "CIC" : "NGP") + ",\"v\":" + g + ",\"p\":" + gp);
}

// sets the fields a criterion reads, lets it mark the mesh and adapts the mesh like the time loop does
static void mark(const Op& o) {
  UserData& U = *C.U;
  if (U.nbFields() == 0) { skip(); return; }
  std::string mod = o.s("module"), dens = o.s("dens", "none");
  long seed = o.i("seed"), top = o.i("top", 30);
  char b[512];
  std::string ini = C.ini;    // ends in the [amr] section
  double V = 1;
  for (int d = 0; d < C.dim; d++) V *= (C.hi[d] - C.lo[d]) / ((double)C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d));
  double q = o.i("q", 997), hi = o.i("hi") / q, lo = o.i("lo") / q;
  if (mod == "RefineCondition_mass") { hi = (o.i("hi") + 0.5) * V; lo = (o.i("lo") + 0.5) * V; }
  snprintf(b, 512, "mass_refine=%.17g\nmass_coarsen=%.17g\nepsilon_refine=%.17g\nepsilon_coarsen=%.17g\nvelocity_refine=%.17g\nvelocity_coarsen=%.17g\ndownflow_sign=%ld\nerror_max=%.17g\nerror_min=%.17g\n",
           hi, lo, hi, lo, hi, lo, o.i("sign", 1), hi, lo);
  ini += b;
  ini += "[hydro]\ngamma0=1.5\n[particles]\nupdate_density=" + dens + "\n";
  ConfigMap conf(ini);
  std::vector<std::string> F = {"rho", "rho_vx", "rho_vy", "rho_vz", "e_tot"};
  fresh(F);
  int mv = mod == "RefineCondition_downflows" ? (C.dim == 2 ? 2 : 3) : 0;    // the field with the momentum, if any
  int flat = o.i("flat", 0);
  auto val = [&](const Oct& t, int f, int i, int j, int k) -> long {
    long h = cellhash(seed, F[f], t, i, j, k);
    long base = 1 + (long)(hash(seed, 3, t.l, t.x >> 1, t.y >> 1, t.z >> 1) % top);   // smooth in most families
    if (hash(seed, 4, t.l, t.x >> 1, t.y >> 1, t.z >> 1) % 100 >= (uint64_t)flat) base = -1;
    if (f == 0) return base > 0 ? base : o.i("zero", 0) && h % 5 == 0 ? 0 : 1 + h % top;
    if (f == 4) return 2 * (base > 0 ? base : 1 + h % top);     // the pressure is half of it
    if (f == mv) return base > 0 ? base - top / 2 : h % (2 * top) - top;
    return 0;
  };
  Join oc;
  { auto a = acc(F);
    for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) {
      Oct t = oct_local(n); Join fj;
      for (size_t f = 0; f < F.size(); f++) {
        Join c;
        for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) { long x = val(t, (int)f, i, j, k); a.at(ci(n, false, i, j, k), (int)f) = (double)x; c.add(std::to_string(x)); }
        if (f == 0 || f == 4 || (int)f == mv) fj.add(c.arr());
      }
      oc.add(fj.arr());
    }
    exchange(a);
  }
  Join jp;
  bool part = dens != "none" && U.has_ParticleArray("particles");
  if (dens != "none" && !part) { drop(F); skip(); return; }
  if (part) {
    if (U.has_ParticleAttribute("particles", "mass")) U.delete_ParticleAttribute("particles", "mass");
    U.new_ParticleAttribute("particles", "mass");
    ParticleArray pa = U.getParticleArray("particles");
    auto v = lattice(pa);
    auto m = U.getParticleAccessor("particles", {{"mass", 0}});
    for (uint32_t i = 0; i < v.size(); i++) {
      long mass = (long)(hash(seed, i, C.rank) % 6) * o.i("pm", 1);
      m.at(i, 0) = (double)mass * V;
      jp.add("[" + jpos(v[i]) + "," + std::to_string(mass) + "]");
    }
  }
  ScalarSimulationData sc;
  auto map = MapUserDataFactory::make_instance("MapUserData_mean", *C.conf, *C.fc, C.timers);
  map->save_old_mesh();
  std::string g = gather(oc.arr()), gp = gather(jp.arr());
  RefineConditionFactory::make_instance(mod, conf, *C.fc, C.timers)->mark_cells(U, sc);
  C.mesh->adapt();
  drop(F);
  map->remap(U);
  if (part) U.distributeAllParticles();
  emit("mark", "\"module\":" + jstr(mod) + ",\"hi\":" + std::to_string(o.i("hi")) + ",\"lo\":" + std::to_string(o.i("lo")) + ",\"q\":" + std::to_string(o.i("q", 997)) +
       ",\"sign\":" + std::to_string(o.i("sign", 1)) + ",\"dens\":" + jstr(dens == "none" ? "none" : dens.find("CIC") != std::string::npos ? "CIC" : "NGP") + ",\"v\":" + g + ",\"p\":" + gp);
}

// the kernels of a step: fields read, fields written, configuration
struct Kern {
  std::string mod, ini;
  bool mhd, glm, par, grav, field;          // parabolic term, gravity solver, gravity from a field
  std::vector<std::string> F, N;            // fields of the state, fields with the result
  Kern(const Op& o, const double* g = nullptr) {
    mod = o.s("module");
    std::string wall = o.s("wall", "absorbing"), gr = o.s("grav", "none");
    mhd = mod.find("MHD") != std::string::npos; glm = mod.find("GLM") != std::string::npos;
    par = mod.find("parabolic:") == 0; grav = mod.find("GravitySolver") == 0; field = gr == "field" && !grav;
    F = {"rho", "rho_vx", "rho_vy", "rho_vz", "e_tot"};
    if (mhd) { F.push_back("Bx"); F.push_back("By"); F.push_back("Bz"); }
    if (glm) F.push_back("psi");
    if (grav) N = {"gphi", "gx", "gy", "gz"};
    else for (auto& f : F) N.push_back(f + "_next");
    ini = C.ini;
    for (size_t p; wall != "absorbing" && (p = ini.find("absorbing")) != std::string::npos;) ini.replace(p, 9, wall);
    ini += "[hydro]\ngamma0=1.6666666666666667\nupdate=" + mod + "\nriemann=" + o.s("riemann", "hllc") + "\nslope_type=" + o.s("slope", "2") + "\n";
    ini += "[viscosity]\nmu=0.05\n[thermal_conduction]\nkappa=0.05\n[gravity]\nCG_eps=1e-10\ngravity_type=" + std::string(mod == "GravitySolver_cg" ? "field" : grav ? "constant_field" : gr) + "\n";
    if (g) for (int d = 0; d < C.dim; d++) ini += std::string("g") + "xyz"[d] + "=" + std::to_string(g[d]) + "\n";
  }
  std::vector<std::string> in() const { auto r = F; if (field) for (auto x : {"gx", "gy", "gz"}) r.push_back(x); return r; }
  void begin() const { fresh(in()); fresh(N); }
  void end() const { drop(N); drop(in()); }
  void run(double dt) const {
    UserData& U = *C.U;
    ConfigMap conf(ini);
    ScalarSimulationData scal;
    scal.set<real_t>("dt", dt); scal.set<real_t>("time", 0.); scal.set<real_t>("aexp", 1.); scal.set<int>("iter", 0);
    if (grav) { GravitySolverFactory::make_instance(mod, conf, *C.fc, C.timers)->update_gravity_field(U, scal); return; }
    if (!par) { HydroUpdateFactory::make_instance(mod, conf, *C.fc, C.timers)->update(U, scal); return; }
    auto a = acc(F); auto b = acc(N);
    each(C.mesh->getNumOctants(), [&](uint32_t n, int i, int j, int k) { for (size_t f = 0; f < F.size(); f++) b.at(ci(n, false, i, j, k), (int)f) = a.at(ci(n, false, i, j, k), (int)f); });
    ParabolicUpdateFactory::make_instance("ParabolicUpdate_explicit", conf, *C.fc, C.timers, mod == "parabolic:viscosity" ? PARABOLIC_VISCOSITY : PARABOLIC_THERMAL_CONDUCTION)->update(U, scal);
  }
};

// one step of a hydrodynamics kernel: totals before and after, deviation from the state before
static void hydro(const Op& o) {
  UserData& U = *C.U;
  std::string wall = o.s("wall", "absorbing");
  long seed = o.i("seed");
  Kern K(o);
  const bool mhd = K.mhd; auto &F = K.F, &N = K.N;
  K.begin();
  bool uni = o.i("uniform", 0) != 0;
  double dmin = 1e300;
  for (int d = 0; d < C.dim; d++) dmin = std::min(dmin, (C.hi[d] - C.lo[d]) / ((double)C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d)));
  auto vol = [&](const Oct& t) { double V = 1; for (int d = 0; d < C.dim; d++) V *= 1. / ((double)C.cgs[d] * (1L << (t.l - C.lmin)) * bb(d)); return V; };
  auto rnd = [&](const Oct& t, int f, int i, int j, int k) {   // in [-1, 1]
    if (uni) return (double)(long)(hash(seed, f) % 2001) / 1000. - 1.;
    return (double)(cellhash(seed, std::to_string(f), t, i, j, k) % 2001) / 1000. - 1.;
  };
  std::vector<double> t0(F.size(), 0.), t1(F.size(), 0.), sc(F.size(), 0.), dev(F.size(), 0.), mx(F.size(), 0.);
  std::vector<std::vector<double>> keep(F.size());
  { auto a = acc(F);
    each(C.mesh->getNumOctants(), [&](uint32_t n, int i, int j, int k) {
      Oct t = oct_local(n);
      double q[9]; double am = o.i("amp", 50) / 100.;
      q[0] = 1 + am * rnd(t, 0, i, j, k);
      double v[3], B[3] = {0, 0, 0}, e = (1 + am * rnd(t, 4, i, j, k)) / (1.6666666666666667 - 1);
      for (int d = 0; d < 3; d++) { v[d] = d < C.dim ? 0.6 * am * rnd(t, 1 + d, i, j, k) : 0; q[1 + d] = q[0] * v[d]; e += 0.5 * q[0] * v[d] * v[d]; }
      if (mhd) for (int d = 0; d < 3; d++) { B[d] = 0.4 * am * rnd(t, 5 + d, i, j, k); q[5 + d] = B[d]; e += 0.5 * B[d] * B[d]; }
      q[4] = e; q[8] = 0;
      for (size_t f = 0; f < F.size(); f++) { a.at(ci(n, false, i, j, k), (int)f) = q[f]; keep[f].push_back(q[f]); t0[f] += q[f] * vol(t); sc[f] += std::fabs(q[f]) * vol(t); mx[f] = std::max(mx[f], std::fabs(q[f])); }
    });
    exchange(a);
  }
  K.run(dmin * o.i("cfl", 10) / 100. / 3.);
  { auto a = acc(N); size_t c = 0;
    each(C.mesh->getNumOctants(), [&](uint32_t n, int i, int j, int k) {
      for (size_t f = 0; f < F.size(); f++) { double x = a.at(ci(n, false, i, j, k), (int)f); t1[f] += x * vol(oct_local(n)); if (!(std::fabs(x - keep[f][c]) <= dev[f])) dev[f] = std::fabs(x - keep[f][c]); }
      c++;
    });
  }
  auto red = [&](std::vector<double>& v, MPI_Op op) { auto w = v; MPI_Allreduce(w.data(), v.data(), v.size(), MPI_DOUBLE, op, MPI_COMM_WORLD); };
  red(t0, MPI_SUM); red(t1, MPI_SUM); red(sc, MPI_SUM); red(dev, MPI_MAX); red(mx, MPI_MAX);
  double all = 0; for (auto& x : mx) all = std::max(all, x);
  const double SCL = 1 << 28;
  auto fix = [&](double x) { return std::isfinite(x) && std::fabs(x) < 2e9 ? std::lround(x) : -2000000001L; };
  Join a0, a1, dv;
  for (size_t f = 0; f < F.size(); f++) { a0.add(std::to_string(fix(t0[f] / all * SCL))); a1.add(std::to_string(fix(t1[f] / all * SCL))); dv.add(std::to_string(fix(dev[f] / all * SCL))); }
  K.end();
  emit("hydro", "\"module\":" + jstr(K.mod) + ",\"riemann\":" + jstr(o.s("riemann", "hllc")) + ",\"wall\":" + jstr(wall) + ",\"uniform\":" + std::to_string(uni ? 1 : 0) + ",\"fields\":" + qn(F) + ",\"t0\":" + a0.arr() + ",\"t1\":" + a1.arr() + ",\"dev\":" + dv.arr());
}

// a step commutes with the symmetries of the box: compares the step of the transformed state with the transformed step
static void sym(const Op& o) {
  std::string wall = o.s("wall", "absorbing"), gr = o.s("grav", "none");
  long seed = o.i("seed");
  auto pv = o.l("perm"), fv = o.l("flip");
  int perm[3] = {0, 1, 2}, flip[3] = {0, 0, 0};
  for (int d = 0; d < C.dim; d++) { perm[d] = std::stoi(pv[d]); flip[d] = std::stoi(fv[d]); }
  double dmin = 1e300;
  for (int d = 0; d < C.dim; d++) dmin = std::min(dmin, (C.hi[d] - C.lo[d]) / ((double)C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d)));
  typedef std::array<long, 4> Key;   // level and cell coordinates at that level
  auto key = [&](uint32_t n, int i, int j, int k) { Oct t = oct_local(n); return Key{(long)t.l, (long)t.x * C.bx + i, (long)t.y * C.by + j, (long)t.z * bz() + k}; };
  auto width = [&](int d, long l) { return d < C.dim ? (long)C.cgs[d] * (1L << (l - C.lmin)) * bb(d) : 1L; };
  // the transformation T of the box: axis d becomes axis perm[d], mirrored if flip[d]
  auto T = [&](const Key& k) { Key r = k; for (int d = 0; d < 3; d++) r[1 + perm[d]] = flip[d] ? width(d, k[0]) - 1 - k[1 + d] : k[1 + d]; return r; };
  auto Ti = [&](const Key& k) { Key r = k; for (int d = 0; d < 3; d++) { long x = k[1 + perm[d]]; r[1 + d] = flip[d] ? width(d, k[0]) - 1 - x : x; } return r; };
  typedef std::array<double, 12> Q;   // rho, momentum, energy, B, psi, g
  auto TQ = [&](const Q& q) { Q r = q; for (int d = 0; d < 3; d++) { double s = flip[d] ? -1 : 1; r[1 + perm[d]] = s * q[1 + d]; r[5 + perm[d]] = s * q[5 + d]; r[9 + perm[d]] = s * q[9 + d]; } return r; };
  const double g0[3] = {0.25, -0.5, 0.75}; double g1[3] = {0, 0, 0};
  for (int d = 0; d < C.dim; d++) g1[perm[d]] = (flip[d] ? -1 : 1) * g0[d];
  Kern K0(o, g0), K1(o, g1);
  const bool mhd = K0.mhd, glm = K0.glm; auto &F = K0.F, &N = K0.N;
  std::string mod = K0.mod;
  auto state = [&](const Key& k) {
    auto rnd = [&](int f) { return (double)(hash(seed, f, k[0], k[1], k[2], k[3]) % 2001) / 1000. - 1.; };
    double am = o.i("amp", 50) / 100.;
    Q q{}; q[0] = 1 + am * rnd(0);
    double e = (1 + am * rnd(4)) / (1.6666666666666667 - 1);
    for (int d = 0; d < 3; d++) { double v = d < C.dim ? 0.6 * am * rnd(1 + d) : 0; q[1 + d] = q[0] * v; e += 0.5 * q[0] * v * v; }
    if (mhd) for (int d = 0; d < 3; d++) { double B = 0.4 * am * rnd(5 + d); q[5 + d] = B; e += 0.5 * B * B; }
    if (glm) q[8] = 0.1 * am * rnd(9);
    q[4] = e;
    if (K0.field) for (int d = 0; d < C.dim; d++) q[9 + d] = rnd(10 + d);
    return q;
  };
  auto step = [&](bool transformed) {
    std::map<Key, Q> res;
    const Kern& K = transformed ? K1 : K0;
    K.begin();
    { auto a = acc(K.in());
      each(C.mesh->getNumOctants(), [&](uint32_t n, int i, int j, int k) {
        Key c = key(n, i, j, k);
        Q q = transformed ? TQ(state(Ti(c))) : state(c);
        for (size_t f = 0; f < F.size(); f++) a.at(ci(n, false, i, j, k), (int)f) = q[f];
        if (K.field) for (int d = 0; d < 3; d++) a.at(ci(n, false, i, j, k), (int)F.size() + d) = q[9 + d];
      });
      exchange(a);
    }
    K.run(dmin * o.i("cfl", 10) / 100. / 3.);
    { auto a = acc(N);
      each(C.mesh->getNumOctants(), [&](uint32_t n, int i, int j, int k) {
        Q q{}; for (size_t f = 0; f < N.size(); f++) q[f] = a.at(ci(n, false, i, j, k), (int)f);
        res[key(n, i, j, k)] = q;
      });
    }
    K.end();
    return res;
  };
  auto r0 = step(false), r1 = step(true);
  // every process gets the whole first result
  std::vector<double> mine; for (auto& x : r0) { for (long v : x.first) mine.push_back((double)v); for (double v : x.second) mine.push_back(v); }
  int n = (int)mine.size(); std::vector<int> cnt(C.np), dis(C.np, 0);
  MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
  for (int r = 1; r < C.np; r++) dis[r] = dis[r - 1] + cnt[r - 1];
  std::vector<double> all(dis[C.np - 1] + cnt[C.np - 1]);
  MPI_Allgatherv(mine.data(), n, MPI_DOUBLE, all.data(), cnt.data(), dis.data(), MPI_DOUBLE, MPI_COMM_WORLD);
  std::map<Key, Q> first;
  for (size_t i = 0; i + 16 <= all.size(); i += 16) { Key k; Q q; for (int j = 0; j < 4; j++) k[j] = (long)all[i + j]; for (int j = 0; j < 12; j++) q[j] = all[i + 4 + j]; first[k] = q; }
  std::vector<double> dev(9, 0.); long miss = 0;
  for (auto& x : r1) {
    auto it = first.find(Ti(x.first));
    if (it == first.end()) { miss++; continue; }
    Q w = TQ(it->second);
    for (int f = 0; f < 9; f++) { double d = std::fabs(w[f] - x.second[f]); if (!(d <= dev[f])) dev[f] = std::isfinite(d) ? d : 1e9; }
  }
  auto w = dev; MPI_Allreduce(w.data(), dev.data(), 9, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
  long ms = 0; MPI_Allreduce(&miss, &ms, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
  Join jd, jp, jf, jx;
  for (size_t f = 0; f < N.size(); f++) jd.add(std::to_string(dev[f] < 8 ? std::lround(dev[f] * (1 << 28)) : 2000000001L));
  for (int d = 0; d < 3; d++) { jp.add(std::to_string(perm[d])); jf.add(std::to_string(flip[d])); }
  for (int d = 0; d < C.dim; d++) jx.add(std::to_string(std::lround((C.hi[d] - C.lo[d]) / width(d, C.lmax) / dmin * 1000)));
  emit("sym", "\"module\":" + jstr(mod) + ",\"grav\":" + jstr(gr) + ",\"riemann\":" + jstr(o.s("riemann", "hllc")) + ",\"wall\":" + jstr(wall) + ",\"perm\":" + jp.arr() + ",\"flip\":" + jf.arr() + ",\"dx\":" + jx.arr() + ",\"missing\":" + std::to_string(ms) + ",\"fields\":" + qn(N) + ",\"dev\":" + jd.arr());
}

// self gravity: potential and acceleration, scaled to integers
static void poisson(const Op& o) {
  UserData& U = *C.U;
  long seed = o.i("seed"), top = o.i("top", 8);
  Op q = o; q.a["module"] = "GravitySolver_cg";
  Kern K(q);
  double h0 = 1e300;
  for (int d = 0; d < C.dim; d++) h0 = std::min(h0, (C.hi[d] - C.lo[d]) / ((double)C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d)));
  double fourpig = o.i("G", 1);
  K.ini += "4_Pi_G=" + std::to_string(fourpig) + "\n";
  K.begin();
  Join jr; double cells = 1;
  for (int d = 0; d < C.dim; d++) cells *= (double)C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d);
  { auto a = acc({"rho", "gphi"});
    for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) {
      Oct t = oct_local(n); Join c;
      for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
        long h = cellhash(seed, "rho", t, i, j, k);
        long v = h % 100 < o.i("sparse", 0) ? 0 : h / 100 % (top + 1);
        a.at(ci(n, false, i, j, k), 0) = (double)v;
        a.at(ci(n, false, i, j, k), 1) = o.i("guess", 0) ? h0 * h0 * (cellhash(seed, "phi", t, i, j, k) % 11) : 0.;
        c.add(std::to_string(v));
      }
      jr.add(c.arr());
    }
    exchange(a);
  }
  K.run(0.1);
  double mx = 0;
  { auto a = acc({"gphi"}); each(C.mesh->getNumOctants(), [&](uint32_t n, int i, int j, int k) { double x = std::fabs(a.at(ci(n, false, i, j, k), 0)); if (!(x <= mx)) mx = std::isfinite(x) ? x : 1e300; }); }
  double w = mx; MPI_Allreduce(&w, &mx, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
  // potential in units of 4 pi G h0^2 / (cells * M)
  double unit = fourpig * h0 * h0 / cells;
  long M = std::min(1000., std::floor(5.0e6 / (mx / unit + 1)));
  double rhs = 3. * top * cells * std::pow(4., C.lmax - C.lmin);
  while (M > 1 && rhs * M > 1.0e9) M--;
  if (mx > 1e299 || M < 1 || rhs > 1.0e9) M = 0;
  auto fix = [&](double x) { return std::isfinite(x) && std::fabs(x) < 2e9 ? std::lround(x) : -2000000001L; };
  Join jp, jg;
  { auto a = acc({"gphi", "gx", "gy", "gz"});
    for (uint32_t n = 0; M && n < C.mesh->getNumOctants(); n++) {
      Oct t = oct_local(n); Join c, g; double h = h0 * (1 << (C.lmax - t.l));
      for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
        c.add(std::to_string(fix(a.at(ci(n, false, i, j, k), 0) / unit * M)));
        Join x; for (int d = 0; d < 3; d++) x.add(std::to_string(fix(6 * h * a.at(ci(n, false, i, j, k), 1 + d) / unit * M)));
        g.add(x.arr());
      }
      jp.add(c.arr()); jg.add(g.arr());
    }
  }
  K.end();
  std::string a1 = gather(jr.s.empty() ? "[]" : jr.arr()), a2 = gather(jp.s.empty() ? "[]" : jp.arr()), a3 = gather(jg.s.empty() ? "[]" : jg.arr());
  if (!M) { skip(); return; }
  emit("poisson", "\"wall\":" + jstr(o.s("wall", "absorbing")) + ",\"m\":" + std::to_string(M) + ",\"rho\":" + a1 + ",\"phi\":" + a2 + ",\"g\":" + a3);
}

// a time step kernel on a state whose signal speeds are integers (gamma = 2)
static void dtk(const Op& o) {
  UserData& U = *C.U;
  std::string mod = o.s("module"), A = "particles";
  bool mhd = o.i("mhd", 0), part = mod == "Compute_dt_particle_velocity", par = mod == "Compute_dt_parabolic";
  if (part && !C.U->has_ParticleArray(A)) { skip(); return; }
  long seed = o.i("seed"), top = o.i("top", 6), kap = o.i("kappa", 0), mu = o.i("mu", 0);
  double cfl = o.i("cfl", 50) / 100.;
  std::string c = std::to_string(cfl), ini = C.ini;
  ini += "[hydro]\ngamma0=2\nupdate=" + std::string(mhd ? "MHDUpdate_euler" : "HydroUpdate_euler") + (mod == "Compute_dt_legacy" || o.i("old", 0) ? "\ncfl=" + c : "") + "\n";
  ini += "[dt]\nparabolic_cfl=" + c + "\nparticle_cfl=" + c + (o.i("old", 0) ? "" : "\nhydro_cfl=" + c) + "\n";
  if (kap) ini += "[thermal_conduction]\nupdate=ParabolicUpdate_explicit\nkappa=" + std::to_string(kap) + "\n";
  if (mu) ini += "[viscosity]\nupdate=ParabolicUpdate_explicit\nmu=" + std::to_string(mu) + "\n";
  ConfigMap conf(ini);
  std::vector<std::string> F = {"rho", "rho_vx", "rho_vy", "rho_vz", "e_tot"};
  if (mhd) for (auto x : {"Bx", "By", "Bz"}) F.push_back(x);
  Join oc, jp;
  if (part) {
    for (const char* n : {"vx", "vy", "vz"}) { if (U.has_ParticleAttribute(A, n)) U.delete_ParticleAttribute(A, n); U.new_ParticleAttribute(A, n); }
    auto v = lattice(U.getParticleArray(A));
    auto pv = U.getParticleAccessor(A, {{"vx", 0}, {"vy", 1}, {"vz", 2}});
    static const int T[][3] = {{0, 0, 0}, {1, 0, 0}, {3, 4, 0}, {0, 2, 0}, {1, 2, 2}, {2, 3, 6}, {4, 4, 7}, {0, 0, 5}, {1, 4, 8}};
    for (uint32_t i = 0; i < v.size(); i++) {
      uint64_t h = hash(seed, i, C.rank);
      const int* t = T[h % (C.dim == 2 ? 4 : 9)]; Join q;
      for (int d = 0; d < 3; d++) { int w = d < C.dim ? t[C.dim == 2 ? (d + (h >> 8)) % 2 : (d + (h >> 8)) % 3] * ((h >> (16 + d)) % 2 ? -1 : 1) : 0; pv.at(i, d) = w; q.add(std::to_string(w)); }
      jp.add("[" + jpos(v[i]) + "," + q.s + "]");
    }
  } else {
    fresh(F);
    auto a = acc(F);
    for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) {
      Oct t = oct_local(n); Join cj;
      for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
        uint64_t h = cellhash(seed, "s", t, i, j, k);
        // most cells are slow: the limit comes from one place
        bool slow = hash(seed, 77, t.l, t.x, t.y, t.z, i, j, k) % 100 < (uint64_t)o.i("slow", 0);
        long v[3], rho = 1 << (2 * (h % 2)), cs = slow ? 1 : 1 + (h >> 3) % top, va = 0, ax = (h >> 7) % 3;
        for (int d = 0; d < 3; d++) v[d] = d < C.dim && !slow ? (long)((h >> (9 + 4 * d)) % (2 * top + 1)) - top : 0;
        if (mhd && (h >> 23) % 3) { long m = slow ? 1 : 1 + (h >> 25) % 3; bool sw = (h >> 28) % 2; cs = (sw ? 3 : 4) * m; va = (sw ? 4 : 3) * m; }
        double B = va * (rho == 4 ? 2. : 1.), p = rho * cs * cs / 2., e = p + 0.5 * B * B;
        CI x = ci(n, false, i, j, k);
        a.at(x, 0) = rho;
        for (int d = 0; d < 3; d++) { a.at(x, 1 + d) = rho * v[d]; e += 0.5 * rho * v[d] * v[d]; if (mhd) a.at(x, 5 + d) = d == ax ? B * ((h >> 30) % 2 ? 1 : -1) : 0; }
        a.at(x, 4) = e;
        char b[128]; snprintf(b, 128, "[%ld,%ld,%ld,%ld,%ld,%ld]", v[0], v[1], v[2], cs, va, ax + 1); cj.add(b);
      }
      oc.add(cj.arr());
    }
    if (o.i("stale", 0)) each(C.mesh->getNumGhosts(), [&](uint32_t q, int i, int j, int k) { for (size_t f = 0; f < F.size(); f++) a.at(ci(q, true, i, j, k), (int)f) = f == 0 ? 1e-6 : 1e6; });
  }
  ScalarSimulationData sc; sc.set<real_t>("dt", o.i("prev", 0) ? 1e-9 : 1e9); sc.set<real_t>("time", 0.); sc.set<int>("iter", 0);
  Compute_dtFactory::make_instance(mod, conf, *C.fc, C.timers)->compute_dt(U, sc);
  double dt = sc.get<real_t>("dt");
  if (!part) drop(F);
  Join e2; for (int d = 0; d < 3; d++) e2.add(std::to_string(std::lround(std::log2((d < C.dim ? C.hi[d] - C.lo[d] : 1.)))));
  std::string g = gather(part ? "[]" : oc.arr()), gp = gather(part ? jp.arr() : "[]"), gd = gather(std::to_string(near(cfl / dt * 16)));
  (void)par;
  emit("dtk", "\"module\":" + jstr(mod) + ",\"mhd\":" + std::to_string(mhd ? 1 : 0) + ",\"kappa\":" + std::to_string(kap) + ",\"mu\":" + std::to_string(mu) + ",\"len\":" + e2.arr() + ",\"v\":" + g + ",\"p\":" + gp + ",\"inv\":" + gd);
}

// one kernel on a state for which the exact result is known: transport of a supersonic flow (upwind), conduction of heat,
// gravity on a uniform flow, cooling layers, gravity of a point mass
static void exact(const Op& o) {
  UserData& U = *C.U;
  std::string kind = o.s("kind"), mod = o.s("module"), gr = o.s("grav", "none"), ini = C.ini;
  long seed = o.i("seed"), wb = o.i("wb", 0), vel = o.i("vel", 0), layer = o.i("layer", 0);
  int dl = C.dim - 1;                                                    // direction of layers
  bool fld = kind == "gravity" && gr == "field", point = kind == "point";
  auto dec = [](double x) { char b[64]; snprintf(b, 64, "%.17g", x); return std::string(b); };
  std::string wall = o.s("wall", "absorbing");
  for (size_t p; wall != "absorbing" && (p = ini.find("absorbing")) != std::string::npos;) ini.replace(p, 9, wall);
  ini += "[hydro]\ngamma0=2\nupdate=" + mod + "\nriemann=" + o.s("riemann", "hllc") + "\nslope_type=" + o.s("slope", "1") + "\nwell_balanced=" + (wb ? "true" : "false") + "\n";
  double gv[3] = {0, 0, 0};
  auto L = [&](int d) { return d < C.dim ? C.hi[d] - C.lo[d] : 1.; };
  long nh[3];                                                           // finest half cells
  for (int d = 0; d < 3; d++) nh[d] = d < C.dim ? 2L * C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d) : 1;
  double cut[2] = {0, 1};                                                // limits of the conducting layer
  if (kind == "conduct") {
    for (int e = 0; e < 2; e++) cut[e] = C.lo[dl] + L(dl) * o.i(e ? "z2" : "z1", e) / C.cgs[dl];
    ini += "[thermal_conduction]\nupdate=ParabolicUpdate_explicit\nkappa=" + std::to_string(o.i("kappa", 1)) + "\n";
    if (layer) ini += "diffusivity_mode=analytical\nkappa_mode=tri_layer\n[tri_layer]\ntransition_thickness=1e-6\nz1=" + dec(cut[0]) + "\nz2=" + dec(cut[1]) + "\nK1=" + std::to_string(o.i("K1", 1)) + "\nK2=" + std::to_string(o.i("K2", 1)) + "\n";
  }
  if (kind == "cool") ini += "[cooling]\nFF_fluxes=" + std::to_string(o.i("flux")) + "\n";
  long pm[3] = {0, 0, 0};
  double cube = (C.hi[0] - C.lo[0]) / nh[0];
  if (kind == "gravity" || point) {
    ini += "[gravity]\ngravity_type=" + std::string(point ? "constant_field" : gr) + "\n";
    if (gr == "constant_scalar" && !point) for (int d = 0; d < C.dim; d++) { gv[d] = (double)(hash(seed, 5, d) % 17) - 8; ini += std::string("g") + "xyz"[d] + "=" + dec(gv[d]) + "\n"; }
    if (point) {
      for (int d = 0; d < 3; d++) { pm[d] = d < C.dim ? (long)(hash(seed, 6, d) % (2 * nh[d])) - nh[d] / 2 : 0; ini += std::string("point_mass_") + "xyz"[d] + "=" + dec(d < C.dim ? C.lo[d] + cube * pm[d] : 0.) + "\n"; }
      ini += "point_mass_Gmass=" + dec(o.i("mass", 1)) + "\nsoftening=" + dec(cube * o.i("soft", 1)) + "\n";
    }
  }
  std::vector<std::string> F = {"rho", "rho_vx", "rho_vy", "rho_vz", "e_tot"}, N, G = {"gx", "gy", "gz"};
  for (auto& f : F) N.push_back(f + "_next");
  fresh(F); fresh(N); if (fld || point) fresh(G);
  Join oc, og;
  auto a = acc(F);
  int sg[3]; for (int d = 0; d < 3; d++) sg[d] = hash(seed, 7, d) % 2 ? -1 : 1;
  bool muscl = kind == "upwind" && !wb, uni = kind == "gravity";
  for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) {
    Oct t = oct_local(n); Join cj;
    for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
      uint64_t h = uni ? hash(seed, 8) : cellhash(seed, "x", t, i, j, k), hu = (muscl || uni) ? hash(seed, 9) : h;
      long rho = muscl ? 1 + h % 9 : kind == "upwind" ? 1 + h % 4 : 1L << (h % 3), p = kind == "upwind" ? 1 + (hu >> 8) % 3 : kind == "conduct" ? rho * (1 + (long)((h >> 8) % 12)) : 3 + (hu >> 8) % 4, v[3];
      for (int d = 0; d < 3; d++) v[d] = d >= C.dim ? 0 : kind == "upwind" ? sg[d] * (long)(4 + (hu >> (16 + 4 * d)) % 4) : vel ? (long)((hu >> (16 + 4 * d)) % 7) - 3 : 0;
      CI x = ci(n, false, i, j, k);
      double e = p;
      a.at(x, 0) = rho;
      for (int d = 0; d < 3; d++) { a.at(x, 1 + d) = rho * v[d]; e += 0.5 * rho * v[d] * v[d]; }
      a.at(x, 4) = e;
      char b[128]; snprintf(b, 128, "[%ld,%ld,%ld,%ld,%ld]", rho, v[0], v[1], v[2], p); cj.add(b);
    }
    oc.add(cj.arr());
  }
  exchange(a);
  if (fld || point) {
    auto b = acc(G);
    for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) {
      Oct t = oct_local(n); Join cj;
      for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
        uint64_t h = o.i("vary", 0) ? cellhash(seed, "g", t, i, j, k) : hash(seed, 10);
        Join q; for (int d = 0; d < 3; d++) { long w = d < C.dim ? (long)((h >> (5 * d)) % 17) - 8 : 0; b.at(ci(n, false, i, j, k), d) = point ? 77 : w; q.add(std::to_string(w)); }
        cj.add(q.arr());
      }
      og.add(cj.arr());
    }
    exchange(b);
  } else if (uni) {
    for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) { Join cj; for (int c = 0; c < C.bx * C.by * bz(); c++) { Join q; for (int d = 0; d < 3; d++) q.add(std::to_string((long)gv[d])); cj.add(q.arr()); } og.add(cj.arr()); }
  }
  auto b = acc(N);
  each(C.mesh->getNumOctants(), [&](uint32_t n, int i, int j, int k) { for (int f = 0; f < 5; f++) b.at(ci(n, false, i, j, k), f) = a.at(ci(n, false, i, j, k), f); });
  double dt = kind == "upwind" ? std::ldexp(1., -26) : kind == "gravity" ? 1. / 64 : 1. / 16;
  ScalarSimulationData sc; sc.set<real_t>("dt", dt); sc.set<real_t>("time", 0.); sc.set<real_t>("aexp", 1.); sc.set<int>("iter", 0);
  { ConfigMap conf(ini);
    if (kind == "upwind" || uni) HydroUpdateFactory::make_instance(mod, conf, *C.fc, C.timers)->update(U, sc);
    else if (kind == "conduct") ParabolicUpdateFactory::make_instance("ParabolicUpdate_explicit", conf, *C.fc, C.timers, PARABOLIC_THERMAL_CONDUCTION)->update(U, sc);
    else if (kind == "cool") CoolingUpdateFactory::make_instance("CoolingUpdate_FF", conf, *C.fc, C.timers)->update(U, sc);
    else GravitySolverFactory::make_instance("GravitySolver_point_mass", conf, *C.fc, C.timers)->update_gravity_field(U, sc);
  }
  // what changed, in units in which it is an integer
  Join jr;
  a = acc(F); b = acc(N);
  auto round = [&](double x) { return std::isfinite(x) && std::fabs(x) < 2e9 ? std::lround(x) : -2000000001L; };
  for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) {
    Join cj;
    for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
      CI x = ci(n, false, i, j, k); Join q;
      double r[5], v[3], v2 = 0; for (int f = 0; f < 5; f++) r[f] = (b.at(x, f) - a.at(x, f)) / dt;
      for (int d = 0; d < 3; d++) { v[d] = a.at(x, 1 + d) / a.at(x, 0); v2 += v[d] * v[d]; }
      if (muscl) {   // density and velocity: every component is the transport of mass
        double S = 48. * (1 << C.dim) * 16;
        q.add(std::to_string(round(r[0] * S)));
        for (int d = 0; d < 3; d++) q.add(std::to_string(round(d < C.dim ? r[1 + d] * S / v[d] : r[1 + d] * 1e9)));
        q.add(std::to_string(round(r[4] * S / (v2 / 2))));
      } else if (kind == "upwind") for (int f = 0; f < 5; f++) q.add(std::to_string(round(r[f] * 32)));
      else if (kind == "gravity") for (int f = 0; f < 5; f++) q.add(std::to_string(near(r[f] * 128)));
      else if (kind == "conduct") for (int f = 0; f < 5; f++) q.add(std::to_string(near(r[f] * 2 * 12 * 16)));
      else if (kind == "cool") for (int f = 0; f < 5; f++) q.add(std::to_string(near(r[f] * 4)));
      else {
        auto g = acc(G); Oct t = oct_local(n); long s = 1L << (C.lmax - t.l); int ijk[3] = {i, j, k}; long X[3] = {t.x, t.y, t.z};
        for (int d = 0; d < 3; d++) {
          double y = d < C.dim ? (double)((2 * (X[d] * bb(d) + ijk[d]) + 1) * s - pm[d]) * cube : 0, gd = g.at(x, d);
          if (d >= C.dim) q.add("0");
          else if (y == 0) q.add(gd == 0 ? "0" : "-1");
          else q.add(std::to_string(-gd / y > 0 ? near(std::pow(o.i("mass", 1) / (-gd / y), 2. / 3) / (cube * cube)) : -1L));
        }
      }
      cj.add(q.arr());
    }
    jr.add(cj.arr());
  }
  drop(N); drop(F); if (fld || point) drop(G);
  Join e2, jp; for (int d = 0; d < 3; d++) { e2.add(std::to_string(std::lround(std::log2(L(d))))); jp.add(std::to_string(pm[d])); }
  std::string s0 = gather(oc.arr()), s1 = gather(og.s.empty() ? "[]" : og.arr()), s2 = gather(jr.arr());
  auto num = [&](const char* k, long def) { return std::string(",\"") + k + "\":" + std::to_string(o.i(k, def)); };
  emit("exact", "\"kind\":" + jstr(kind) + ",\"module\":" + jstr(mod) + ",\"grav\":" + jstr(gr) + num("wb", 0) + num("kappa", 1) + num("layer", 0) + num("z1", 0) + num("z2", 0) + num("K1", 1) + num("K2", 1) + num("flux", 0) + num("soft", 1) +
       ",\"pm\":" + jp.arr() + ",\"len\":" + e2.arr() + ",\"v\":" + s0 + ",\"gf\":" + s1 + ",\"r\":" + s2);
}

// an analytical problem of the harness: refined to the given depth around points, values that depend on everything a formula is given
static std::vector<std::array<long, 4>> ic_points;    // finest half cells, depth
static long half(int d, double x) { return std::lround((x - C.lo[d]) / (C.hi[d] - C.lo[d]) * 2 * C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d)); }
static int ic_level(double dx) { return C.lmin + (int)std::lround(std::log2((C.hi[0] - C.lo[0]) / (dx * C.cgs[0] * C.bx))); }
struct AnalyticalFormula_points : public AnalyticalFormula_base {
  AnalyticalFormula_points(ConfigMap&) {}
  bool need_refine(real_t x, real_t y, real_t z, real_t dx, real_t dy, real_t dz) const {
    double c[3] = {x, y, z}, w[3] = {dx, dy, dz};
    for (auto& p : ic_points) {
      bool in = ic_level(dx) < p[3];
      for (int d = 0; d < C.dim; d++) {
        double q = C.lo[d] + (C.hi[d] - C.lo[d]) * (double)p[d] / (2. * C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb(d));
        in = in && std::fabs(c[d] - q) < 0.5 * w[d];
      }
      if (in) return true;
    }
    return false;
  }
  ConsHydroState value(real_t x, real_t y, real_t z, real_t dx, real_t dy, real_t dz) const {
    double c[3] = {x, y, z}, w[3] = {dx, dy, dz}; long h[3] = {0, 0, 0}, l = ic_level(dx);
    for (int d = 0; d < C.dim; d++) {
      h[d] = half(d, c[d]);
      if (std::fabs(w[d] - (C.hi[d] - C.lo[d]) / ((double)C.cgs[d] * (1L << (l - C.lmin)) * bb(d))) > 1e-9 * w[d]) l = 50 + d;   // not the size of a cell
    }
    ConsHydroState r;
    r.rho = 1 + l % 2;
    r.rho_u = r.rho * ((h[0] + 2 * h[1] + 4 * h[2]) % 15 - 7);
    r.rho_v = r.rho * ((3 * h[0] + h[1] + 2 * h[2]) % 13 - 6);
    r.rho_w = C.dim == 3 ? r.rho * ((h[0] + h[1] + 3 * h[2]) % 11 - 5) : 0;
    r.e_tot = 1 + h[0] + h[1] + h[2] + 1000 * l;
    return r;
  }
};

static void ic(const Op& o) {
  UserData& U = *C.U;
  std::string mod = o.s("module"), ini = C.ini;     // ends in the [amr] section
  bool part = mod == "particle_grid" || mod == "simple_particles";
  auto sev = [&](const char* k) { char b[64]; snprintf(b, 64, "%.17g", o.i(k) / 7.); return std::string(b); };
  auto num = [&](const char* k) { return std::to_string(o.i(k)); };
  std::string X;
  X += "error_max=" + std::to_string(o.i("emax", 83) / 100.) + "\n[hydro]\ngamma0=2\n";
  char rad[64]; snprintf(rad, 64, "%.17g", std::sqrt(7.) * o.i("radius") / 28.);
  long cen[3] = {o.i("cx", 7), o.i("cy", 7), o.i("cz", 7)};
  X += "[blast]\nradius=" + std::string(rad);
  for (int d = 0; d < 3; d++) if (cen[d] != 7) { char b[64]; snprintf(b, 64, "\ncenter_%c=%.17g", "xyz"[d], cen[d] / 14.); X += b; }
  X += std::string("") + "\ndensity_in=" + num("rin") + "\ndensity_out=" + num("rout") + "\npressure_in=" + num("pin") + "\npressure_out=" + num("pout") + "\nblast_B=" + num("B") + "\nblast_alpha=0\nblast_nx=" + std::to_string(o.i("bnx", 1)) + "\nblast_ny=" + std::to_string(o.i("bny", 1)) + "\nblast_nz=" + std::to_string(o.i("bnz", 1)) + "\n";
  X += "[sod]\nx0=" + sev("radius") + "\npL=" + num("pin") + "\npR=" + num("pout") + "\nrhoL=" + num("rin") + "\nrhoR=" + num("rout") + "\n";
  X += "[implode]\nx0=" + sev("radius") + "\np_in=" + num("pin") + "\np_out=" + num("pout") + "\nrho_in=" + num("rin") + "\nrho_out=" + num("rout") + "\n";
  X += "[RT]\nz0=" + sev("radius") + "\nP0=" + num("pin") + "\nrho_bot=" + num("rin") + "\nrho_top=" + num("rout") + "\namplitude=0\n[gravity]\ngx=0\ngy=0\ngz=0\n";
  auto list64 = [&](const char* k, double s) { std::string r; for (auto x : o.l(k, ':')) { char b[64]; snprintf(b, 64, "%.17g", std::atol(x.c_str()) * s); r += (r.empty() ? "" : ",") + std::string(b); } return r; };
  if (mod == "simple_particles") {
    X += "[simple_particles]\nnpart=" + num("npart") + "\n";
    for (const char* k : {"px", "py", "pz"}) if (o.has(k)) X += std::string(k) + "=" + list64(k, 1. / 64) + "\n";
    for (const char* k : {"vx", "vy", "vz", "mass"}) if (o.has(k)) X += std::string(k) + "=" + list64(k, 1.) + "\n";
  }
  long nn[3] = {o.i("nx", 1), o.i("ny", 1), o.i("nz", 1)};
  if (mod == "particle_grid") {
    X += "[particle_grid]\n";
    if (!o.i("defn", 0)) for (int d = 0; d < 3; d++) X += std::string("n") + "xyz"[d] + "=" + std::to_string(nn[d]) + "\n";
    else for (int d = 0; d < 3; d++) nn[d] = (long)bb(d) * (d < C.dim ? C.cgs[d] : 1);
    X += "total_mass=" + std::to_string(o.i("m", 1) * nn[0] * nn[1] * nn[2]) + "\ndt_perturb=" + std::to_string(o.i("pert", 0) / 64.) + "\n";
  }
  ConfigMap conf(ini + X);
  ic_points.clear();
  for (auto& p : o.l("pts", ';')) { Op q; q.a["p"] = p; auto l = q.l("p", ':'); ic_points.push_back({std::atol(l[0].c_str()), std::atol(l[1].c_str()), std::atol(l[2].c_str()), std::atol(l[3].c_str())}); }
  bool mhd = mod.find("MHD") != std::string::npos;
  std::vector<std::string> F = {"rho", "rho_vx", "rho_vy", "rho_vz", "e_tot"};
  if (mhd) for (auto x : {"Bx", "By", "Bz"}) F.push_back(x);
  if (mod == "MHD_blast_glm") F.push_back("psi");
  std::string A = "particles";
  std::unique_ptr<InitialConditions> k;
  if (mod == "points") k = std::make_unique<InitialConditions_analytical<AnalyticalFormula_points>>(conf, *C.fc, C.timers);
  else k = InitialConditionsFactory::make_instance(mod, conf, *C.fc, C.timers);
  k->init(U);
  std::string x = "\"module\":" + jstr(mod);
  for (auto& kv : o.a) if (kv.first != "module" && kv.first != "pts" && kv.second.find(':') == std::string::npos) x += "," + jstr(kv.first) + ":" + std::to_string(o.i(kv.first));
  x += ",\"centre\":[" + std::to_string(cen[0]) + "," + std::to_string(cen[1]) + "," + std::to_string(cen[2]) + "]";
  if (part) {
    Join jp; ParticleArray pa = U.getParticleArray(A);
    auto pv = U.getParticleAccessor(A, {{"vx", 0}, {"vy", 1}, {"vz", 2}, {"mass", 3}});
    ComponentIndex3D D[3] = {IX, IY, IZ};
    for (uint32_t i = 0; i < pa.getNumParticles(); i++) {
      Join q;
      for (int d = 0; d < 3; d++) q.add(std::to_string(near(pa.pos(i, D[d]) * 64)));
      for (int d = 0; d < 4; d++) q.add(std::to_string(near(pv.at(i, d))));
      jp.add(q.arr());
    }
    x += ",\"p\":" + gather(jp.arr());
    for (const char* n : {"px", "py", "pz", "vx", "vy", "vz", "mass"}) { Join j; for (auto& v : o.l(n, ':')) j.add(v); x += "," + jstr(std::string("l") + n) + ":" + j.arr(); }
    Join jn; for (int d = 0; d < 3; d++) jn.add(std::to_string(nn[d]));
    x += ",\"grid\":" + jn.arr();
  } else {
    Join oc, jp; auto a = acc(F);
    for (uint32_t n = 0; n < C.mesh->getNumOctants(); n++) {
      Join cj;
      for (int z = 0; z < bz(); z++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
        Join v; for (size_t f = 0; f < F.size(); f++) v.add(std::to_string(near(a.at(ci(n, false, i, j, z), (int)f)))); cj.add(v.arr());
      }
      oc.add(cj.arr());
    }
    for (auto& p : ic_points) { char b[96]; snprintf(b, 96, "[%ld,%ld,%ld,%ld]", p[0], p[1], p[2], p[3]); jp.add(b); }
    Join fn; std::set<std::string> all = U.getEnabledFields();
    for (auto& n : all) fn.add(jstr(n));
    x += ",\"points\":" + jp.arr() + ",\"v\":" + gather(oc.arr()) + ",\"icf\":" + fn.arr();
  }
  emit("ic", x);
}

bool op_phys(const Op& o) {
  if (o.name == "ic") { ic(o); return true; }
  if (o.name == "dtk") { dtk(o); return true; }
  if (o.name == "exact") { exact(o); return true; }
  if (o.name == "poisson") { poisson(o); return true; }
  if (o.name == "sym") { sym(o); return true; }
  if (o.name == "hydro") { hydro(o); return true; }
  if (o.name == "mark") { mark(o); return true; }
  if (o.name == "deposit") { deposit(o); return true; }
  if (o.name == "pmove") { pmove(o); return true; }
  return false;
}
}
