#include "vd.hpp"
namespace vd {
void reset_particles() {}

static std::string names(const std::vector<std::string>& v) { Join j; for (auto& x : v) j.add(jstr(x)); return j.arr(); }
// position of lattice point q in direction d
static double at(int d, long q) { return C.lo[d] + (C.hi[d] - C.lo[d]) * ((q + 0.5) / C.nf(d)); }
static long lat(int d, double p) {
  if (d >= C.dim) return p == C.lo[d] ? 0 : -1;
  long q = std::lround((p - C.lo[d]) / (C.hi[d] - C.lo[d]) * C.nf(d) - 0.5);
  return at(d, q) == p ? q : -1;   // anything not bit-identical to a lattice point is not one of ours
}
std::string obs_particles() {
  Join all;
  for (const std::string& an : C.U->getEnabledParticleArrays()) {
    auto pa = C.U->getParticleArray(an);
    auto ats = C.U->getEnabledParticleAttributes(an);
    uint32_t n = pa.getNumParticles();
    std::vector<std::vector<double>> cols;
    for (auto& t : ats) {
      auto ac = C.U->getParticleAccessor(an, {{t, 0}});
      std::vector<double> c(n);
      for (uint32_t i = 0; i < n; i++) c[i] = ac.at(i, 0);
      cols.push_back(c);
    }
    Join rows;
    for (uint32_t i = 0; i < n; i++) {
      Join r;
      ComponentIndex3D D[3] = {IX, IY, IZ};
      for (int d = 0; d < 3; d++) r.add(std::to_string(lat(d, pa.pos(i, D[d]))));
      for (auto& c : cols) r.add(std::to_string(dval(c[i])));
      rows.add(r.arr());
    }
    std::string g = gather(rows.arr());
    all.add("{\"name\":" + jstr(an) + ",\"at\":" + jnames(ats) + ",\"v\":" + g + "}");
  }
  return ",\"pa\":" + all.arr();
}
static std::string rs(bool r) { return std::string(",\"ref\":") + (r ? "1" : "0"); }

bool op_particles(const Op& o) {
  UserData& U = *C.U;
  std::string A = o.s("array"), N = o.s("name");
  if (o.name == "newpa") {
    auto cnt = o.li("n");
    uint32_t n = cnt.empty() ? 0 : cnt[C.rank % cnt.size()];
    bool r = refused([&] { U.new_ParticleArray(A, n); });
    if (!r) {  // positions are the caller's business: give every particle a lattice position
      auto pa = U.getParticleArray(A);
      long seed = o.i("seed", 1);
      for (uint32_t i = 0; i < n; i++) {
        ComponentIndex3D D[3] = {IX, IY, IZ};
        for (int d = 0; d < 3; d++) {
          long nf = C.nf(d), q = hash(seed, C.rank, i, d) % (uint64_t)nf;
          if (o.has("cluster") && d < C.dim) q = (hash(seed, 77, d) + hash(seed, C.rank, i, d) % (uint64_t)(2 * C.F)) % nf;
          pa.pos(i, D[d]) = d < C.dim ? at(d, q) : C.lo[d];
        }
      }
    }
    std::string g = gather(std::to_string(n));
    emit("newpa", "\"array\":" + jstr(A) + ",\"cnt\":" + g + rs(r));
    return true;
  }
  if (o.name == "newat") { bool r = refused([&] { U.new_ParticleAttribute(A, N); }); emit("newat", "\"array\":" + jstr(A) + ",\"name\":" + jstr(N) + rs(r)); return true; }
  if (o.name == "setat") {
    if (!U.has_ParticleArray(A) || !U.has_ParticleAttribute(A, N)) { skip(); return true; }
    auto ac = U.getParticleAccessor(A, {{N, 0}});
    auto pa = U.getParticleArray(A);
    Join w;
    for (uint32_t i = 0; i < pa.getNumParticles(); i++) {
      long v = 1 + hash(o.i("seed", 1), hstr(A), hstr(N), C.rank, i) % 100000;
      ac.at(i, 0) = v * SC; w.add(std::to_string(v));
    }
    std::string g = gather(w.arr());
    emit("setat", "\"array\":" + jstr(A) + ",\"name\":" + jstr(N) + ",\"w\":" + g);
    return true;
  }
  if (o.name == "movepos") {
    if (!U.has_ParticleArray(A)) { skip(); return true; }
    auto pa = U.getParticleArray(A);
    ComponentIndex3D D[3] = {IX, IY, IZ};
    Join w;
    for (uint32_t i = 0; i < pa.getNumParticles(); i++) {
      Join x;
      for (int d = 0; d < 3; d++) {
        long q = d < C.dim ? hash(o.i("seed", 1), C.rank, i, d) % (uint64_t)C.nf(d) : 0;
        if (d < C.dim) pa.pos(i, D[d]) = at(d, q);
        x.add(std::to_string(q));
      }
      w.add(x.arr());
    }
    std::string g = gather(w.arr());
    emit("movepos", "\"array\":" + jstr(A) + ",\"w\":" + g);
    return true;
  }
  if (o.name == "mvat") {
    bool r = refused([&] { U.move_ParticleAttribute(A, o.s("dest"), o.s("src")); });
    emit("mvat", "\"array\":" + jstr(A) + ",\"dest\":" + jstr(o.s("dest")) + ",\"src\":" + jstr(o.s("src")) + rs(r));
    return true;
  }
  if (o.name == "delat") { bool r = refused([&] { U.delete_ParticleAttribute(A, N); }); emit("delat", "\"array\":" + jstr(A) + ",\"name\":" + jstr(N) + rs(r)); return true; }
  if (o.name == "getat") {  // copy of one attribute
    std::string v = "[]";
    bool r = refused([&] {
      auto d = U.getParticleAttribute(A, N);
      Join j; for (uint32_t i = 0; i < d.getNumParticles(); i++) j.add(std::to_string(dval(d.at_ivar(i, 0))));
      v = j.arr();
    });
    std::string g = gather(v);
    emit("getat", "\"array\":" + jstr(A) + ",\"name\":" + jstr(N) + rs(r) + ",\"res\":" + (r ? "[]" : g));
    return true;
  }
  if (o.name == "hasp") {
    int a = U.has_ParticleArray(A) ? 1 : 0, b = 0;
    if (a && !N.empty()) b = U.has_ParticleAttribute(A, N) ? 1 : 0;
    emit("hasp", "\"array\":" + jstr(A) + ",\"name\":" + jstr(N) + ",\"ra\":" + std::to_string(a) + ",\"rn\":" + std::to_string(b));
    return true;
  }
  if (o.name == "pacc") {  // several attributes through one accessor, by id and by position
    auto v = o.l("names");
    std::string a1 = "[]", a2 = "[]";
    bool r = refused([&] {
      std::vector<UserData::ParticleAccessor_AttributeInfo> in; int i = 0;
      for (auto& n : v) { in.push_back({n, 40 - 3 * i}); i++; }
      auto a = U.getParticleAccessor(A, in);
      auto rd = [&](bool byid) {
        Join J;
        for (uint32_t p = 0; p < U.getParticleArray(A).getNumParticles(); p++) {
          Join x; for (size_t f = 0; f < v.size(); f++) x.add(std::to_string(dval(byid ? a.at(p, 40 - 3 * (int)f) : a.at_ivar(p, (int)f))));
          J.add(x.arr());
        }
        return J.arr();
      };
      a1 = rd(true); a2 = rd(false);
    });
    std::string g1 = gather(a1), g2 = gather(a2);
    emit("pacc", "\"array\":" + jstr(A) + ",\"names\":" + names(v) + rs(r) + ",\"byid\":" + (r ? "[]" : g1) + ",\"bypos\":" + (r ? "[]" : g2));
    return true;
  }
  if (o.name == "dist") {
    if (A.empty()) { U.distributeAllParticles(); emit("dist", "\"array\":\"*\"" + rs(false)); }
    else { bool r = refused([&] { U.distributeParticles(A); }); emit("dist", "\"array\":" + jstr(A) + rs(r)); }
    return true;
  }
  return false;
}
}
