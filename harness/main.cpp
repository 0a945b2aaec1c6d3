#include <unistd.h>
#include "vd.hpp"
namespace vd {
Ctx C;

static Oct mk(int l, const double* corner, const double* size) {
  Oct o; o.l = l;
  int* c[3] = {&o.x, &o.y, &o.z};
  for (int d = 0; d < 3; d++) {
    if (d >= C.dim) { *c[d] = 0; continue; }
    double n = (double)C.cgs[d] * std::pow(2.0, l - C.lmin);
    double q = corner[d] * n;
    long k = std::lround(q);
    // the corner must be on the lattice of its level and the size must be that of the level
    bool ok = std::fabs(q - k) < 1e-6 && std::fabs(size[d] * n - 1.0) < 1e-9;
    *c[d] = ok ? (int)k : -77;
  }
  return o;
}
Oct oct_local(uint32_t i) { auto c = C.mesh->getCoordinates(i); auto s = C.mesh->getSize(i); return mk(C.mesh->getLevel(i), c.data(), s.data()); }
Oct oct_ghost(uint32_t i) { auto c = C.mesh->getCoordinatesGhost(i); auto s = C.mesh->getSizeGhost(i); return mk(C.mesh->getLevelGhost(i), c.data(), s.data()); }
Oct oct_of(const LightOctree& lm, LightOctree_base::OctantIndex o) {
  auto c = lm.getCorner(o); auto s = lm.getSize(o);
  double cc[3] = {c[0], c[1], c[2]}, ss[3] = {s[0], s[1], s[2]};
  return mk(lm.getLevel(o), cc, ss);
}
std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}
std::string jnames(const std::set<std::string>& s) { Join j; for (auto& x : s) j.add(jstr(x)); return j.arr(); }

std::string gather(const std::string& mine) {
  int n = mine.size();
  std::vector<int> sz(C.np), off(C.np);
  MPI_Gather(&n, 1, MPI_INT, sz.data(), 1, MPI_INT, 0, MPI_COMM_WORLD);
  int tot = 0;
  if (C.rank == 0) for (int i = 0; i < C.np; i++) { off[i] = tot; tot += sz[i]; }
  std::vector<char> buf(tot + 1);
  MPI_Gatherv(mine.data(), n, MPI_CHAR, buf.data(), sz.data(), off.data(), MPI_CHAR, 0, MPI_COMM_WORLD);
  std::string r;
  if (C.rank == 0) { r = "["; for (int i = 0; i < C.np; i++) { if (i) r += ','; r.append(buf.data() + off[i], sz[i]); } r += ']'; }
  return r;
}
std::string project(const std::set<std::string>& obs) {
  std::string r;
  auto key = [&](const char* k, const std::string& v) { r += std::string(",\"") + k + "\":" + v; };
  uint32_t n = C.mesh->getNumOctants();
  { Join j; for (uint32_t i = 0; i < n; i++) j.add(js(oct_local(i))); key("own", gather(j.arr())); }
  if (obs.count("mesh")) {
    key("n", gather(std::to_string(n)));
    key("gn", gather(std::to_string(C.mesh->getGlobalNumOctants())));
    Join j; for (uint32_t i = 0; i < n; i++) j.add(std::to_string(C.mesh->getGlobalIdx(i)));
    key("gid", gather(j.arr()));
  }
  if (obs.count("ghosts")) {
    Join j; for (uint32_t i = 0; i < C.mesh->getNumGhosts(); i++) j.add(js(oct_ghost(i)));
    key("gh", gather(j.arr()));
    key("ngl", gather(std::to_string(C.mesh->getLightOctree().getNumGhosts())));
  }
  if (obs.count("fields")) r += obs_fields();
  if (obs.count("particles")) r += obs_particles();
  return r;
}
void emit(const std::string& op, const std::string& extra, const std::set<std::string>& obs) {
  std::string p = project(obs);
  if (C.rank == 0) {
    std::string line = "{\"op\":\"" + op + "\"" + (extra.empty() ? "" : "," + extra) + p + "}\n";
    fwrite(line.data(), 1, line.size(), C.out);
    fflush(C.out);
  }
}
void skip() { if (C.rank == 0) { fputs("{\"op\":\"skip\"}\n", C.out); fflush(C.out); } }
bool refused(const std::function<void()>& f) {
  int t = 0;
  try { f(); } catch (const std::exception& e) { t = 1; }
  int g = 0;
  MPI_Allreduce(&t, &g, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return g != 0;
}

static void begin(const Op& o) {
  reset_particles();
  reset_fields();
  C.U.reset(); C.fc.reset(); C.mesh.reset(); C.conf.reset();
  C.dim = o.i("dim", 2); C.lmin = o.i("lmin", 1); C.lmax = o.i("lmax", 3);
  auto cg = o.li("cgs"), pe = o.li("per"), b = o.li("b");
  for (int d = 0; d < 3; d++) {
    C.cgs[d] = d < (int)cg.size() ? cg[d] : 1;
    C.per[d] = d < (int)pe.size() ? pe[d] : 0;
  }
  C.bx = b.size() > 0 ? b[0] : 2; C.by = b.size() > 1 ? b[1] : 2; C.bz = b.size() > 2 ? b[2] : 1;
  auto lo = o.l("lo"), hi = o.l("hi");
  for (int d = 0; d < 3; d++) {
    C.lo[d] = d < (int)lo.size() ? std::atof(lo[d].c_str()) : 0.0;
    C.hi[d] = d < (int)hi.size() ? std::atof(hi[d].c_str()) : 1.0;
  }
  C.obs.clear();
  for (auto& x : o.l("obs")) C.obs.insert(x);
  char buf[1024];
  const char* A[3] = {"x", "y", "z"};
  std::string ini = "[mesh]\nndim=" + std::to_string(C.dim) + "\n";
  for (int d = 0; d < 3; d++) {
    snprintf(buf, 1024, "%smin=%.17g\n%smax=%.17g\nboundary_type_%smin=%s\nboundary_type_%smax=%s\n", A[d], C.lo[d], A[d], C.hi[d],
             A[d], C.per[d] ? "periodic" : "absorbing", A[d], C.per[d] ? "periodic" : "absorbing");
    ini += buf;
  }
  snprintf(buf, 1024, "[amr]\nlevel_min=%d\nlevel_max=%d\nbx=%d\nby=%d\nbz=%d\nnbOctsPerGroup=%ld\n", C.lmin, C.lmax, C.bx, C.by, C.bz, o.i("group", 1024));
  ini += buf;
  if (o.has("cgs"))
    for (int d = 0; d < C.dim; d++) { snprintf(buf, 1024, "coarse_oct_resolution_%s=%d\n", A[d], C.cgs[d]); ini += buf; }
  if (!o.has("cgs")) for (int d = 0; d < C.dim; d++) C.cgs[d] = 1 << C.lmin;
  C.ini = ini;
  C.conf = std::make_unique<ConfigMap>(ini);
  if (o.i("direct", 0)) {
    Kokkos::Array<uint32_t, 3> cgs = {(uint32_t)C.cgs[0], (uint32_t)C.cgs[1], (uint32_t)(C.dim == 3 ? C.cgs[2] : 1)};
    C.mesh = std::make_unique<AMRmesh>(C.dim, C.dim, std::array<bool, 3>{(bool)C.per[0], (bool)C.per[1], (bool)C.per[2]}, C.lmin, C.lmax, cgs);
  } else {
    auto p = AMRmesh::parse_parameters(*C.conf);
    C.mesh = std::make_unique<AMRmesh>(p.dim, p.dim, p.periodic, p.level_min, p.level_max, p.coarse_grid_size);
  }
  C.fc = std::make_unique<ForeachCell>(*C.mesh, *C.conf);
  C.U = std::make_unique<UserData>(*C.conf, *C.fc);
  snprintf(buf, 1024, "\"id\":%s,\"np\":%d,\"dim\":%d,\"cgs\":[%d,%d,%d],\"lmin\":%d,\"lmax\":%d,\"per\":[%d,%d,%d],\"b\":[%d,%d,%d],\"F\":%d",
           jstr(o.s("id", "?")).c_str(), C.np, C.dim, C.cgs[0], C.cgs[1], C.dim == 3 ? C.cgs[2] : 1, C.lmin, C.lmax, C.per[0], C.per[1], C.per[2], C.bx, C.by, C.bz, C.F);
  emit("init", buf);
}

static void run(const std::string& path) {
  std::ifstream f(path);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    Op o; std::string w;
    if (!(is >> o.name) || o.name[0] == '#') continue;
    while (is >> w) { auto p = w.find('='); if (p == std::string::npos) o.a[w] = "1"; else o.a[w.substr(0, p)] = w.substr(p + 1); }
    if (getenv("VD_DEBUG") && C.rank == 0) fprintf(stderr, "# %s\n", line.c_str());
    alarm(20);   // an operation takes milliseconds: this one never ends
    if (o.name == "begin") { begin(o); continue; }
    if (op_mesh(o) || op_fields(o) || op_particles(o) || op_cells(o) || (op_phys && op_phys(o))) continue;
    fprintf(stderr, "vdrive: unknown operation '%s'\n", o.name.c_str());
    MPI_Abort(MPI_COMM_WORLD, 66);
  }
}
}
int main(int argc, char* argv[]) {
  // the code under test is chatty: keep its output apart
  dyablo::DyabloSession session(argc, argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &vd::C.rank);
  MPI_Comm_size(MPI_COMM_WORLD, &vd::C.np);
  if (argc < 3) { fprintf(stderr, "usage: vdrive scenario trace\n"); return 67; }
  if (vd::C.rank == 0) vd::C.out = fopen(argv[2], "w");
  vd::run(argv[1]);
  alarm(0);
  if (vd::C.rank == 0) { fprintf(vd::C.out, "{\"op\":\"end\"}\n"); fclose(vd::C.out); }
  vd::reset_particles();
  vd::reset_fields();
  vd::C.U.reset(); vd::C.fc.reset(); vd::C.mesh.reset(); vd::C.conf.reset();
  return 0;
}
