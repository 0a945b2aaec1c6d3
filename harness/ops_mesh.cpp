#include "vd.hpp"
#include "mpi/ViewCommunicator.h"
namespace vd {

// markers requested by the scenario; partition-independent (they depend on the octant's position only),
// clamped to the level bounds as the refinement conditions do
void apply_marks(const Op& o, std::string& json) {
  uint32_t n = C.mesh->getNumOctants();
  std::string kind = o.s("marks", "rand");
  long seed = o.i("seed", 1), pr = o.i("pr", 200), pc = o.i("pc", 500);
  std::vector<int> m(n, 0);
  std::string code = o.s("code");
  // position of my first octant in the global order
  long first = 0, ln = n;
  MPI_Exscan(&ln, &first, 1, MPI_LONG, MPI_SUM, MPI_COMM_WORLD);
  if (C.rank == 0) first = 0;
  std::map<std::vector<int>, int> listed;
  if (kind == "list")
    for (auto& t : o.l("list", ';')) {
      std::vector<int> v; std::string c; std::istringstream is(t);
      while (std::getline(is, c, ':')) v.push_back(std::atoi(c.c_str()));
      if (v.size() == 5) listed[{v[0], v[1], v[2], v[3]}] = v[4];
    }
  double unit = o.has("mil") ? 1000. : 100.;
  double cx = o.i("cx", 50) / unit, cy = o.i("cy", 50) / unit, cz = o.i("cz", 50) / unit, r = o.i("r", 20) / unit;
  for (uint32_t i = 0; i < n; i++) {
    Oct q = oct_local(i);
    int v = 0;
    if (kind == "rand") {
      Oct q = oct_local(i);
      if (int fold = (int)o.i("fold", 0)) {   // symmetric marks: mirrored (1), also under permutations of the axes (2)
        long k[3] = {q.x, q.y, q.z};
        for (int d = 0; d < C.dim; d++) k[d] = std::min(k[d], ((long)C.cgs[d] << (q.l - C.lmin)) - 1 - k[d]);
        if (fold == 2) std::sort(k, k + C.dim);
        q.x = k[0]; q.y = k[1]; q.z = k[2];
      }
      long h = hash(seed, q.l, q.x, q.y, q.z) % 1000;
      // coarsening needs whole families: draw it per parent most of the time
      long hp = hash(seed + 17, q.l, q.x >> 1, q.y >> 1, q.z >> 1) % 1000;
      if (h < pr) v = 1;
      else if (hp < pc) v = (hash(seed + 31, q.l, q.x, q.y, q.z) % 1000) < 970 ? -1 : 0;
    } else if (kind == "ball") {
      double cc[3] = {cx, cy, cz}, d2 = 0; int k[3] = {q.x, q.y, q.z};
      for (int d = 0; d < C.dim; d++) {
        double w = 1.0 / (C.cgs[d] * std::pow(2., q.l - C.lmin)), p = (k[d] + 0.5) * w - cc[d];
        if (C.per[d]) p -= std::floor(p + 0.5);
        p = std::max(0., std::fabs(p) - 0.5 * w);
        d2 += p * p;
      }
      v = d2 <= r * r ? 1 : (int)o.i("other", -1);
    } else if (kind == "rank") {
      v = (C.rank == (int)o.i("rank")) ? (int)o.i("mark", 1) : (int)o.i("other", 0);
    } else if (kind == "code") {
      size_t g = first + i;
      if (g < code.size()) v = code[g] == '+' ? 1 : code[g] == '-' ? -1 : 0;
    } else if (kind == "list") {
      auto it = listed.find({q.l, q.x, q.y, q.z});
      if (it != listed.end()) v = it->second;
    } else if (kind == "all") v = o.i("mark", 1);
    if (q.l >= C.lmax && v > 0) v = 0;
    if (q.l <= C.lmin && v < 0) v = 0;
    m[i] = v;
  }
  Join j;
  for (uint32_t i = 0; i < n; i++) if (m[i]) { Oct q = oct_local(i); char b[96]; snprintf(b, 96, "[%d,%d,%d,%d,%d]", q.l, q.x, q.y, q.z, m[i]); j.add(b); }
  std::string all = gather(j.s.empty() ? "[]" : j.arr());
  json = "\"marks\":" + all;
  if (o.s("via") == "setMarkers") {
    Kokkos::View<int*> v("markers", n);
    for (uint32_t i = 0; i < n; i++) v(i) = m[i];
    C.mesh->setMarkers(v);
  } else
    for (uint32_t i = 0; i < n; i++) if (m[i]) C.mesh->setMarker(i, m[i]);
}

static std::string query_neighbors() {
  const LightOctree& lm = C.mesh->getLightOctree();
  Join all;
  for (uint32_t i = 0; i < C.mesh->getNumOctants(); i++) {
    Join row;
    for (int dz = C.dim == 3 ? -1 : 0; dz <= (C.dim == 3 ? 1 : 0); dz++)
      for (int dy = -1; dy <= 1; dy++)
        for (int dx = -1; dx <= 1; dx++) {
          if (!dx && !dy && !dz) continue;
          LightOctree::offset_t off{(int8_t)dx, (int8_t)dy, (int8_t)dz};
          LightOctree_base::OctantIndex io{i, false};
          bool bd = lm.isBoundary(io, off);
          auto nl = lm.findNeighbors(io, off);
          Join ns;
          for (int k = 0; k < nl.size(); k++) {
            bool inr = nl[k].isGhost ? nl[k].iOct < C.mesh->getNumGhosts() : nl[k].iOct < C.mesh->getNumOctants();
            Oct q = inr ? oct_of(lm, nl[k]) : Oct{-9, -9, -9, -9};
            char b[96]; snprintf(b, 96, "[%d,%d,%d,%d,%d]", q.l, q.x, q.y, q.z, nl[k].isGhost ? 1 : 0);
            ns.add(b);
          }
          char h[64]; snprintf(h, 64, "[%d,%d,%d,%d,", dx, dy, dz, bd ? 1 : 0);
          row.add(std::string(h) + ns.arr() + "]");
        }
    all.add(row.arr());
  }
  return gather(all.arr());
}

// geometry answers of every interface for every local and ghost octant (all must agree with "own"/"gh")
static std::string query_geom() {
  const LightOctree& lm = C.mesh->getLightOctree();
  Join all;
  uint32_t n = C.mesh->getNumOctants(), ng = C.mesh->getNumGhosts();
  for (uint32_t i = 0; i < n + ng; i++) {
    bool g = i >= n; uint32_t k = g ? i - n : i;
    LightOctree_base::OctantIndex io{k, g};
    Oct a = g ? oct_ghost(k) : oct_local(k), b = oct_of(lm, io);
    auto cm = g ? C.mesh->getCenterGhost(k) : C.mesh->getCenter(k);
    auto cl = lm.getCenter(io); auto sz = lm.getSize(io); auto co = lm.getCorner(io);
    int ok = 1;
    for (int d = 0; d < C.dim; d++) {
      double mid = co[d] + 0.5 * sz[d];
      if (std::fabs(cm[d] - mid) > 1e-12 || std::fabs(cl[d] - mid) > 1e-12) ok = 0;
    }
    int bound = g ? 0 : (C.mesh->getBound(k) ? 1 : 0);
    char t[200]; snprintf(t, 200, "[%d,%s,%s,%d,%d]", g ? 1 : 0, js(a).c_str(), js(b).c_str(), ok, bound);
    all.add(t);
  }
  return gather(all.arr());
}

// points q (particle lattice): domain given by every rank, octant given by the rank that is said to own it
static std::string query_points(const Op& o) {
  const LightOctree& lm = C.mesh->getLightOctree();
  long seed = o.i("seed", 1), cnt = o.i("count", 20);
  Join all;
  for (long p = 0; p < cnt; p++) {
    long q[3] = {0, 0, 0}; LightOctree::pos_t pos{0, 0, 0};
    for (int d = 0; d < C.dim; d++) {
      long nf = C.nf(d);
      long h = hash(seed, p, d);
      q[d] = (h & 0x7fffffff) % nf;
      if (p < 8) q[d] = (p >> d) & 1 ? nf - 1 : 0;        // the corners of the domain first
      pos[d] = (q[d] + 0.5) / nf;
    }
    int dom = (int)lm.getDomainFromPos(pos);
    Oct r{-1, -1, -1, -1}; int gh = 0;
    if (dom == C.rank) { auto io = lm.getiOctFromPos(pos); gh = io.isGhost; r = oct_of(lm, io); }
    char b[200]; snprintf(b, 200, "[[%ld,%ld,%ld],%d,%s,%d]", q[0], q[1], q[2], dom, js(r).c_str(), gh);
    all.add(b);
  }
  return gather(all.arr());
}

// what each process receives for its ghosts when every owner sends (rank, level, position) of its octants
static std::string ghost_tags() {
  ViewCommunicator comm = ViewCommunicator::from_mesh(*C.mesh);
  uint32_t n = C.mesh->getNumOctants(), ng = C.mesh->getNumGhosts();
  Kokkos::View<int**, Kokkos::LayoutLeft> in("in", 5, n), out("out", 5, ng);
  for (uint32_t i = 0; i < n; i++) { Oct q = oct_local(i); int v[5] = {C.rank, q.l, q.x, q.y, q.z}; for (int k = 0; k < 5; k++) in(k, i) = v[k]; }
  int bad = comm.getNumGhosts() != ng, anybad = 0;
  MPI_Allreduce(&bad, &anybad, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  if (anybad) return "[]";
  comm.exchange_ghosts<1>(in, out);
  Join all;
  for (uint32_t i = 0; i < ng; i++) { char b[128]; snprintf(b, 128, "[%d,%d,%d,%d,%d]", out(0, i), out(1, i), out(2, i), out(3, i), out(4, i)); all.add(b); }
  return gather(all.arr());
}

// global refinement needs every octant to be coarser than the maximum level
bool can_grefine() {
  int bad = 0, any = 0;
  for (uint32_t i = 0; i < C.mesh->getNumOctants(); i++) if (C.mesh->getLevel(i) >= C.lmax) bad = 1;
  MPI_Allreduce(&bad, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
  return !any;
}
bool op_mesh(const Op& o) {
  if (o.name == "adapt") {
    std::string j; apply_marks(o, j);
    C.mesh->adapt();
    emit("adapt", j);
    return true;
  }
  if (o.name == "grefine") {
    if (!can_grefine()) { skip(); return true; } C.mesh->adaptGlobalRefine(); emit("grefine", ""); return true; }
  if (o.name == "lb") {
    if (C.mesh->getGlobalNumOctants() < (uint64_t)C.np) { skip(); return true; }   // every process needs an octant
    C.mesh->loadBalance((uint8_t)o.i("compact", 0));
    emit("lb", "\"compact\":" + std::to_string(o.i("compact", 0)));
    return true;
  }
  if (o.name == "query") {
    std::string r = "\"nb\":" + query_neighbors();
    r += ",\"geo\":" + query_geom();
    emit("query", r, {});
    return true;
  }
  if (o.name == "points") { emit("points", "\"pts\":" + query_points(o), {}); return true; }
  if (o.name == "tags") { std::string t = ghost_tags(); emit("tags", "\"tags\":" + t, {"ghosts"}); return true; }
  if (o.name == "state") { emit("state", ""); return true; }
  return false;
}
}
