#include "vd.hpp"
#include "amr/MapUserData.h"
#include "mpi/GhostCommunicator.h"
#include "mpi/ViewCommunicator.h"
namespace vd {
void reset_fields() {}

static std::vector<UserData::FieldAccessor_FieldInfo> infos(const std::vector<std::string>& names) {
  std::vector<UserData::FieldAccessor_FieldInfo> r; int i = 0;
  for (auto& n : names) r.push_back({n, i++});
  return r;
}
static std::vector<std::string> enabled() { auto s = C.U->getEnabledFields(); return std::vector<std::string>(s.begin(), s.end()); }
static std::string num(double v) { return std::to_string(dval(v)); }
static int bz() { return C.dim == 3 ? C.bz : 1; }

// all values through an accessor: octant -> field -> cells (x fastest)
static std::string dump(const UserData::FieldAccessor& a, int nf, bool ghost) {
  uint32_t n = ghost ? C.mesh->getNumGhosts() : C.mesh->getNumOctants();
  Join oc;
  for (uint32_t o = 0; o < n; o++) {
    Join fj;
    for (int f = 0; f < nf; f++) {
      Join c;
      for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
        ForeachCell::CellIndex ic{{o, ghost}, (uint32_t)i, (uint32_t)j, (uint32_t)k, (uint32_t)C.bx, (uint32_t)C.by, (uint32_t)bz(), ForeachCell::CellIndex::LOCAL_TO_BLOCK};
        c.add(num(a.at(ic, f)));
      }
      fj.add(c.arr());
    }
    oc.add(fj.arr());
  }
  return gather(oc.arr());
}
std::string obs_fields() {
  auto names = enabled();
  std::string r = ",\"fn\":" + jnames(C.U->getEnabledFields()) + ",\"fc\":" + gather(std::to_string(C.U->nbFields()));
  bool gh = C.see("gcells");
  if (names.empty()) {
    Join e; for (uint32_t i = 0; i < C.mesh->getNumOctants(); i++) e.add("[]");
    r += ",\"fv\":" + gather(e.arr());
    if (gh) { Join g; for (uint32_t i = 0; i < C.mesh->getNumGhosts(); i++) g.add("[]"); r += ",\"gv\":" + gather(g.arr()); }
    return r;
  }
  auto a = C.U->getAccessor(infos(names));
  r += ",\"fv\":" + dump(a, names.size(), false);
  if (gh) r += ",\"gv\":" + dump(a, names.size(), true);
  return r;
}
static std::string qnames(const std::vector<std::string>& v) { Join j; for (auto& x : v) j.add(jstr(x)); return j.arr(); }

// writes values that depend on the position only; returns what was written
static std::string setfields(const std::vector<std::string>& names, long seed, long scale, long mod) {
  if (names.empty()) return "[]";
  auto a = C.U->getAccessor(infos(names));
  Join oc;
  for (uint32_t o = 0; o < C.mesh->getNumOctants(); o++) {
    Oct q = oct_local(o);
    Join fj;
    for (size_t f = 0; f < names.size(); f++) {
      Join c;
      for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
        ForeachCell::CellIndex ic{{o, false}, (uint32_t)i, (uint32_t)j, (uint32_t)k, (uint32_t)C.bx, (uint32_t)C.by, (uint32_t)bz(), ForeachCell::CellIndex::LOCAL_TO_BLOCK};
        long v = (long)(hash(seed, hstr(names[f]), q.l, q.x, q.y, q.z, i, j, k) % mod) * scale;
        a.at(ic, (int)f) = v * SC;
        c.add(std::to_string(v));
      }
      fj.add(c.arr());
    }
    oc.add(fj.arr());
  }
  return gather(oc.arr());
}
// is a ghost cell less than depth cells (of its size) away from an owned octant touching its block ?
static bool within(const Oct& g, int i, int j, int k, int depth) {
  int gi[3] = {i, j, k}, b[3] = {C.bx, C.by, bz()};
  int gx[3] = {g.x, g.y, g.z};
  for (uint32_t o = 0; o < C.mesh->getNumOctants(); o++) {
    Oct q = oct_local(o);
    int ox[3] = {q.x, q.y, q.z};
    bool all = true;
    for (int d = 0; d < C.dim && all; d++) {
      long wg = 1L << (C.lmax - g.l), wo = 1L << (C.lmax - q.l), N = (long)C.cgs[d] * (1L << (C.lmax - C.lmin)) * b[d];
      long g0 = (long)gx[d] * b[d] * wg, g1 = g0 + b[d] * wg, c0 = g0 + gi[d] * wg, c1 = c0 + wg;
      long o0 = (long)ox[d] * b[d] * wo, o1 = o0 + b[d] * wo;
      bool any = false;   // the same periodic image has to touch the block and to be near the cell
      for (long s : {0L, -N, N}) {
        if (s && !C.per[d]) continue;
        auto gap = [&](long a0, long a1) { return std::max(0L, std::max(o0 + s - a1, a0 - o1 - s)); };
        if (gap(g0, g1) == 0 && gap(c0, c1) < depth * wg) any = true;
      }
      all = any;
    }
    if (all) return true;
  }
  return false;
}
static void ghostset(const std::string& mode, long seed, int depth) {
  auto names = enabled();
  if (names.empty()) return;
  auto a = C.U->getAccessor(infos(names));
  for (uint32_t o = 0; o < C.mesh->getNumGhosts(); o++) {
    Oct q = oct_ghost(o);
    for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
      bool in = mode == "depth" ? within(q, i, j, k, depth) : false;
      for (size_t f = 0; f < names.size(); f++) {
        ForeachCell::CellIndex ic{{o, true}, (uint32_t)i, (uint32_t)j, (uint32_t)k, (uint32_t)C.bx, (uint32_t)C.by, (uint32_t)bz(), ForeachCell::CellIndex::LOCAL_TO_BLOCK};
        long h = hash(seed, C.rank, hstr(names[f]), q.l, q.x, q.y, q.z, i, j, k) % 997;
        a.at(ic, (int)f) = SC * (mode == "garbage" ? -1. - h : mode == "depth" ? (in ? 1. + h : 0.) : 0.);
      }
    }
  }
}

bool op_fields(const Op& o) {
  UserData& U = *C.U;
  if (o.name == "newf") {
    auto v = o.l("names");
    bool r = refused([&] { U.new_fields(std::set<std::string>(v.begin(), v.end())); });
    emit("newf", "\"names\":" + qnames(v) + ",\"ref\":" + (r ? "1" : "0"));
    return true;
  }
  if (o.name == "setf") {
    std::vector<std::string> v;
    for (auto& n : o.has("names") ? o.l("names") : enabled()) if (U.has_field(n)) v.push_back(n);
    if (v.empty()) { skip(); return true; }
    std::string w = setfields(v, o.i("seed", 1), o.i("scale", 1), o.i("mod", 1000));
    emit("setf", "\"names\":" + qnames(v) + ",\"w\":" + w);
    return true;
  }
  if (o.name == "movef") {
    bool r = refused([&] { U.move_field(o.s("dest"), o.s("src")); });
    emit("movef", "\"dest\":" + jstr(o.s("dest")) + ",\"src\":" + jstr(o.s("src")) + ",\"ref\":" + (r ? "1" : "0"));
    return true;
  }
  if (o.name == "delf") {
    bool r = refused([&] { U.delete_field(o.s("name")); });
    emit("delf", "\"name\":" + jstr(o.s("name")) + ",\"ref\":" + (r ? "1" : "0"));
    return true;
  }
  if (o.name == "hasf") { emit("hasf", "\"name\":" + jstr(o.s("name")) + ",\"res\":" + (U.has_field(o.s("name")) ? "1" : "0")); return true; }
  if (o.name == "getf") {
    std::string v = "[]";
    bool r = refused([&] {
      auto a = U.getField(o.s("name"));
      Join oc;
      for (uint32_t q = 0; q < C.mesh->getNumOctants(); q++) {
        Join c; for (int i = 0; i < C.bx * C.by * bz(); i++) c.add(num(a.U(i, 0, q)));
        oc.add(c.arr());
      }
      v = oc.arr();
    });
    std::string g = gather(v);
    emit("getf", "\"name\":" + jstr(o.s("name")) + ",\"ref\":" + (r ? "1" : "0") + ",\"res\":" + (r ? "[]" : g));
    return true;
  }
  if (o.name == "acc") {  // an accessor listing some fields in an arbitrary order, read by position and by id
    auto v = o.l("names");
    std::string a1 = "[]", a2 = "[]";
    bool r = refused([&] {
      std::vector<UserData::FieldAccessor_FieldInfo> in; int i = 0;
      for (auto& n : v) { in.push_back({n, 40 - 3 * i}); i++; }
      auto a = U.getAccessor(in);
      auto rd = [&](bool byid) {
        Join oc;
        for (uint32_t q = 0; q < C.mesh->getNumOctants(); q++) {
          Join fj;
          for (size_t f = 0; f < v.size(); f++) {
            Join c;
            for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
              ForeachCell::CellIndex ic{{q, false}, (uint32_t)i, (uint32_t)j, (uint32_t)k, (uint32_t)C.bx, (uint32_t)C.by, (uint32_t)bz(), ForeachCell::CellIndex::LOCAL_TO_BLOCK};
              c.add(num(byid ? a.at(ic, 40 - 3 * (int)f) : a.at_ivar(ic, (int)f)));
            }
            fj.add(c.arr());
          }
          oc.add(fj.arr());
        }
        return oc.arr();
      };
      a1 = rd(true); a2 = rd(false);
    });
    std::string g1 = gather(a1), g2 = gather(a2);
    emit("acc", "\"names\":" + qnames(v) + ",\"ref\":" + (r ? "1" : "0") + ",\"byid\":" + (r ? "[]" : g1) + ",\"bypos\":" + (r ? "[]" : g2));
    return true;
  }
  if (o.name == "reallocf") {
    if (enabled().empty()) { skip(); return true; }
    auto names = enabled();
    std::string old;
    { auto a = U.backup_and_realloc(); old = dump(a, names.size(), false); }
    emit("reallocf", "\"names\":" + qnames(names) + ",\"old\":" + old);
    return true;
  }
  if (o.name == "extendf") { U.extend_fields(); emit("extendf", ""); return true; }
  if ((o.name == "adaptmap" || o.name == "lbdata") && enabled().empty()) { skip(); return true; }
  if (o.name == "adaptmap" && o.s("marks") == "grefine" && !can_grefine()) { skip(); return true; }
  if (o.name == "adaptmap") {  // one AMR cycle as the time loop does it
    auto map = MapUserDataFactory::make_instance("MapUserData_mean", *C.conf, *C.fc, C.timers);
    std::string j;
    map->save_old_mesh();
    if (o.s("marks") == "grefine") { C.mesh->adaptGlobalRefine(); Join a; j = "\"marks\":" + gather("[]"); }
    else { apply_marks(o, j); C.mesh->adapt(); }
    map->remap(U);
    if (o.i("dist", 0)) U.distributeAllParticles();
    emit("adaptmap", j + ",\"dist\":" + std::to_string(o.i("dist", 0)) + ",\"global\":" + (o.s("marks") == "grefine" ? "1" : "0"));
    return true;
  }
  if (o.name == "lbdata") {
    if (C.mesh->getGlobalNumOctants() < (uint64_t)C.np) { skip(); return true; }   // every process needs an octant
    C.mesh->loadBalance_userdata((int)o.i("compact", 0), U);
    U.distributeAllParticles();
    emit("lbdata", "\"compact\":" + std::to_string(o.i("compact", 0)));
    return true;
  }
  if (o.name == "ghostset") {
    ghostset(o.s("mode", "zero"), o.i("seed", 1), o.i("depth", 1));
    emit("ghostset", "\"mode\":" + jstr(o.s("mode", "zero")) + ",\"depth\":" + std::to_string(o.i("depth", 1)));
    return true;
  }
  if (o.name == "xchg" || o.name == "reduce") {
    std::vector<std::string> v;
    for (auto& n : o.has("names") ? o.l("names") : enabled()) if (U.has_field(n)) v.push_back(n);
    if (v.empty()) { skip(); return true; }
    int gc = o.i("gc", 1);
    auto a = U.getAccessor(infos(v));
    auto shape = U.getShape();
    bool r = refused([&] {
      if (o.s("impl", "partial") == "full") {
        GhostCommunicator_impl<GhostCommunicator_full_blocks> g(*C.mesh, shape, gc);
        for (int i = 0; i < o.i("times", 1); i++) { if (o.name == "xchg") g.exchange_ghosts(a); else g.reduce_ghosts(a); }
      } else {
        GhostCommunicator g(*C.mesh, shape, gc);
        for (int i = 0; i < o.i("times", 1); i++) { if (o.name == "xchg") g.exchange_ghosts(a); else g.reduce_ghosts(a); }
      }
    });
    emit(o.name, std::string("\"ref\":") + (r ? "1" : "0") + ",\"times\":" + std::to_string(o.i("times", 1)) + ",\"names\":" + qnames(v) + ",\"gc\":" + std::to_string(gc) + ",\"impl\":" + jstr(o.s("impl", "partial")));
    return true;
  }
  if (o.name == "axchg" || o.name == "areduce") {
    // the same on a free standing cell array with n unnamed fields
    int n = o.i("n", 2), gc = o.i("gc", 1); long seed = o.i("seed", 1);
    auto A = C.fc->allocate_ghosted_array("A", FieldManager(n));
    uint32_t nc = C.bx * C.by * bz();
    for (uint32_t q = 0; q < C.mesh->getNumOctants(); q++) for (int f = 0; f < n; f++) for (uint32_t i = 0; i < nc; i++) {
      Oct p = oct_local(q); A.U(i, f, q) = SC * (1 + hash(seed, f, p.l, p.x, p.y, p.z, i) % 997);
    }
    for (uint32_t q = 0; q < C.mesh->getNumGhosts(); q++) {
      Oct p = oct_ghost(q);
      for (uint32_t i = 0; i < nc; i++) {
        bool in = o.name == "areduce" ? within(p, i % C.bx, (i / C.bx) % C.by, i / (C.bx * C.by), gc) : false;
        for (int f = 0; f < n; f++) A.Ughost(i, f, q) = SC * (o.name == "axchg" ? -1. : in ? 1. + hash(seed, C.rank, f, p.l, p.x, p.y, p.z, i) % 997 : 0.);
      }
    }
    auto dump2 = [&](bool ghost) {
      Join oc;
      for (uint32_t q = 0; q < (ghost ? C.mesh->getNumGhosts() : C.mesh->getNumOctants()); q++) {
        Join fj; for (int f = 0; f < n; f++) { Join c; for (uint32_t i = 0; i < nc; i++) c.add(num(ghost ? A.Ughost(i, f, q) : A.U(i, f, q))); fj.add(c.arr()); }
        oc.add(fj.arr());
      }
      return gather(oc.arr());
    };
    std::string u0 = dump2(false), g0 = dump2(true);
    bool r = refused([&] {
      if (o.s("impl", "partial") == "full") {
        GhostCommunicator_full_blocks g(C.mesh->getMesh(), A.getShape(), gc);
        if (o.name == "axchg") g.exchange_ghosts(A); else g.reduce_ghosts(A);
      } else {
        GhostCommunicator g(*C.mesh, A.getShape(), gc);
        if (o.name == "axchg") g.exchange_ghosts(A); else g.reduce_ghosts(A);
      }
    });
    std::string u1 = dump2(false), g1 = dump2(true);
    emit(o.name, std::string("\"ref\":") + (r ? "1" : "0") + ",\"gc\":" + std::to_string(gc) + ",\"nf\":" + std::to_string(n) + ",\"impl\":" + jstr(o.s("impl", "partial")) +
         ",\"u0\":" + u0 + ",\"g0\":" + g0 + ",\"u1\":" + u1 + ",\"g1\":" + g1, {"ghosts"});
    return true;
  }
  if (o.name == "vc") {  // generic array exchange
    std::string kind = o.s("kind", "domains"); long seed = o.i("seed", 1); int dim = o.i("dim", 0), a = o.i("a", 2), b = o.i("bb", 3);
    long n = hash(seed, C.rank, 5) % (o.i("max", 9) + 1);
    if (o.has("empty") && o.i("empty") == C.rank) n = 0;
    // element e of rank r is sent to dest[e] (a list)
    std::vector<std::vector<int>> dest(n);
    std::vector<std::vector<uint32_t>> perdest(C.np);
    bool self = o.i("self", 1);
    for (long e = 0; e < n; e++) {
      if (kind == "domains") dest[e] = {(int)(hash(seed, C.rank, e, 9) % C.np)};
      else for (int d = 0; d < C.np; d++) if ((self || d != C.rank) && hash(seed, C.rank, e, d, 3) % 100 < (uint64_t)o.i("pct", 40)) dest[e].push_back(d);
      for (int d : dest[e]) perdest[d].push_back(e);
    }
    if (kind != "domains" && o.i("perm", 0)) for (auto& v : perdest) std::reverse(v.begin(), v.end());
    std::unique_ptr<ViewCommunicator> c;
    if (kind == "domains") {
      Kokkos::View<int*> t("t", n); for (long e = 0; e < n; e++) t(e) = dest[e][0];
      c = std::make_unique<ViewCommunicator>(t);
    } else if (kind == "map") {
      std::map<int, std::vector<uint32_t>> m; for (int d = 0; d < C.np; d++) if (!perdest[d].empty()) m[d] = perdest[d];
      c = std::make_unique<ViewCommunicator>(m);
    } else {
      size_t tot = 0; for (auto& v : perdest) tot += v.size();
      Kokkos::View<uint32_t*> sz("sz", C.np), io("io", tot);
      size_t k = 0; for (int d = 0; d < C.np; d++) { sz(d) = perdest[d].size(); for (auto e : perdest[d]) io(k++) = e; }
      c = std::make_unique<ViewCommunicator>(sz, io);
    }
    uint32_t ng = c->getNumGhosts();
    auto val = [&](long e, int i, int j) { return SC * (C.rank * 1000000 + e * 1000 + i * 10 + j); };
    Join got, src, back;
    bool red = o.i("reduce", 0);
    // element values are a x b blocks; the distributed dimension is 0, 1 or 2
    auto idx = [&](auto& V, long e, int i, int j) -> double& { return dim == 0 ? V(e, i, j) : dim == 1 ? V(i, e, j) : V(i, j, e); };
    Kokkos::View<double***, Kokkos::LayoutLeft> in("in", dim == 0 ? n : a, dim == 1 ? n : dim == 0 ? a : b, dim == 2 ? n : b);
    Kokkos::View<double***, Kokkos::LayoutLeft> out("out", dim == 0 ? ng : a, dim == 1 ? ng : dim == 0 ? a : b, dim == 2 ? ng : b);
    for (long e = 0; e < n; e++) for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) idx(in, e, i, j) = val(e, i, j);
    for (uint32_t e = 0; e < ng; e++) for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) idx(out, e, i, j) = -5 * SC;
    int t = 0;
    if (dim == 0) c->exchange_ghosts<0>(in, out); else if (dim == 1) c->exchange_ghosts<1>(in, out); else c->exchange_ghosts<2>(in, out);
    auto rows = [&](auto& V, long m) { Join J; for (long e = 0; e < m; e++) { Join x; for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) x.add(num(idx(V, e, i, j))); J.add(x.arr()); } return J.arr(); };
    std::string g_out = gather(rows(out, ng)), g_in = gather(rows(in, n)), g_red = "[]", g_gh = "[]";
    if (red) {
      for (uint32_t e = 0; e < ng; e++) for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) idx(out, e, i, j) = SC * (1 + hash(seed, C.rank, e, i, j, 77) % 1000);
      g_gh = gather(rows(out, ng));
      for (int q = 0; q < o.i("times", 1); q++)
        if (dim == 0) c->reduce_ghosts<0>(in, out); else if (dim == 1) c->reduce_ghosts<1>(in, out); else c->reduce_ghosts<2>(in, out);
      g_red = gather(rows(in, n));
    }
    Join pj; for (auto& v : perdest) { Join x; for (auto e : v) x.add(std::to_string(e)); pj.add(x.arr()); }
    std::string send = gather(pj.arr()), cnt = gather(std::to_string(ng)), ns = gather(std::to_string(n));
    char h[160]; snprintf(h, 160, "\"kind\":%s,\"dim\":%d,\"a\":%d,\"bb\":%d,\"np\":%d,\"times\":%d,", jstr(kind).c_str(), dim, a, b, C.np, (int)o.i("times", 1));
    std::string line = "{\"op\":\"vc\"," + std::string(h) + "\"n\":" + ns + ",\"send\":" + send + ",\"cnt\":" + cnt + ",\"out\":" + g_out + ",\"in\":" + g_in +
                       ",\"gh\":" + g_gh + ",\"red\":" + g_red + "}\n";
    if (C.rank == 0) { fwrite(line.data(), 1, line.size(), C.out); fflush(C.out); }
    (void)t;
    return true;
  }
  return false;
}
}
