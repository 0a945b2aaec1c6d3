#include "vd.hpp"
#include <mutex>
#include "foreach_cell/ForeachCell_utils.h"
namespace vd {
typedef ForeachCell::CellIndex CI;
static int bz() { return C.dim == 3 ? C.bz : 1; }
static std::string octjs(const LightOctree& lm, LightOctree_base::OctantIndex io) {
  bool in = io.isGhost ? io.iOct < C.mesh->getNumGhosts() : io.iOct < C.mesh->getNumOctants();
  Oct q = in ? oct_of(lm, io) : Oct{-9, -9, -9, -9};
  char b[96]; snprintf(b, 96, "%d,%d,%d,%d", q.l, q.x, q.y, q.z); return b;
}
static std::string cell(const LightOctree& lm, const CI& c) {
  char b[64]; snprintf(b, 64, ",%d,%d,%d,%d]", (int)c.i, (int)c.j, (int)c.k, c.iOct.isGhost ? 1 : 0);
  return "[" + octjs(lm, c.iOct) + b;
}
// position and size of a cell in half finest cells / finest cells; -1 when not on the lattice
static std::string geom(const ForeachCell::CellMetaData& m, const CI& c) {
  auto ce = m.getCellCenter(c); auto sz = m.getCellSize(c);
  std::string r; int bb[3] = {C.bx, C.by, bz()};
  for (int w = 0; w < 2; w++)
    for (int d = 0; d < 3; d++) {
      long v = 0;
      if (d < C.dim) {
        double n = (double)C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb[d];
        double q = w == 0 ? (ce[d] - C.lo[d]) / (C.hi[d] - C.lo[d]) * 2 * n : sz[d] / (C.hi[d] - C.lo[d]) * n;
        v = std::lround(q); if (std::fabs(q - v) > 1e-5) v = -1;
      }
      r += (r.empty() ? "" : ",") + std::to_string(v);
    }
  return r;
}
static int st(const CI& c) {
  switch (c.status) { case CI::LOCAL_TO_BLOCK: return 0; case CI::SAME_SIZE: return 1; case CI::SMALLER: return 2; case CI::BIGGER: return 3; case CI::BOUNDARY: return 4; default: return 5; }
}
static std::vector<CI::offset_t> offsets(const Op& o) {
  std::vector<CI::offset_t> r; int w = o.i("width", 1);
  bool axes = w > 1;
  for (int z = C.dim == 3 ? -w : 0; z <= (C.dim == 3 ? w : 0); z++) for (int y = -w; y <= w; y++) for (int x = -w; x <= w; x++) {
    if (!x && !y && !z) continue;
    int nz = (x != 0) + (y != 0) + (z != 0);
    if (o.i("faces", 0) && nz != 1) continue;
    if (axes && nz != 1 && (std::abs(x) > 1 || std::abs(y) > 1 || std::abs(z) > 1) && !o.i("wide", 0)) continue;
    r.push_back({(int16_t)x, (int16_t)y, (int16_t)z});
  }
  return r;
}
static std::string target(const LightOctree& lm, const CI& n, const CI::offset_t& off, const ForeachCell::CellArray_global_ghosted& A) {
  int s = st(n);
  if (s == 4) {
    CI in; CI::offset_t back; n.getBoundaryPosAndOffset(in, back);
    char b[96]; snprintf(b, 96, ",%d,%d,%d]", back[0], back[1], back[2]);
    return "[4,[" + cell(lm, in) + b + "]";
  }
  if (s == 5) return "[5,[]]";
  Join j;
  j.add(cell(lm, n));
  if (s == 2 && std::abs(off[0]) <= 1 && std::abs(off[1]) <= 1 && std::abs(off[2]) <= 1) {
    Join k;
    int cnt = C.dim == 2 ? foreach_smaller_neighbor<2>(n, off, A, [&](const CI& c) { k.add(cell(lm, c)); })
                         : foreach_smaller_neighbor<3>(n, off, A, [&](const CI& c) { k.add(cell(lm, c)); });
    j.s = k.s; (void)cnt;
  }
  return "[" + std::to_string(s) + "," + j.arr() + "]";
}

bool op_cells(const Op& o) {
  if (o.name == "cells") {
    const LightOctree& lm = C.mesh->getLightOctree();
    auto md = C.fc->getCellMetaData();
    auto A = C.fc->allocate_ghosted_array("vis", FieldManager(1));
    std::mutex mu; std::mutex* pm = &mu;
    std::vector<CI> v[3];
    std::vector<CI>*v0 = &v[0], *v1 = &v[1], *v2 = &v[2];
    C.fc->foreach_cell("vis", A.getShape(), KOKKOS_LAMBDA(const CI& c) { std::lock_guard<std::mutex> g(*pm); v0->push_back(c); });
    C.fc->foreach_ghost_cell("gvis", A.getShape(), KOKKOS_LAMBDA(const CI& c) { std::lock_guard<std::mutex> g(*pm); v1->push_back(c); });
    C.fc->foreach_patch("pvis", PATCH_LAMBDA(const ForeachCell::Patch& p) {
      p.foreach_cell(A.getShape(), CELL_LAMBDA(const CI& c) { std::lock_guard<std::mutex> g(*pm); v2->push_back(c); });
    });
    std::string r;
    const char* K[3] = {"vis", "gvis", "pvis"};
    for (int w = 0; w < 3; w++) {
      Join j;
      for (auto& c : v[w]) {
        std::string s = cell(lm, c);
        bool in = c.iOct.isGhost ? c.iOct.iOct < C.mesh->getNumGhosts() : c.iOct.iOct < C.mesh->getNumOctants();
        s.pop_back();
        j.add(s + "," + (in ? geom(md, c) : std::string("-1,-1,-1,-1,-1,-1")) + "]");
      }
      r += std::string(w ? "," : "") + "\"" + K[w] + "\":" + gather(j.arr());
    }
    // reductions: number of cells, sum and maximum of a position dependent integer
    double cnt = 0, sum = 0, mx = -1;
    long seed = o.i("seed", 1);
    Join vals;
    auto val = [seed](const Oct& q, const CI& c) { return (double)(hash(seed, q.l, q.x, q.y, q.z, c.i, c.j, c.k) % 1000); };
    C.fc->reduce_cell("cnt", A.getShape(), KOKKOS_LAMBDA(const CI& c, double& u) { u += 1; }, cnt);
    C.fc->reduce_cell("sum", A.getShape(), [=](const CI& c, double& u) { u += val(oct_local(c.iOct.iOct), c); }, sum);
    C.fc->reduce_cell("max", A.getShape(), [=](const CI& c, double& u) { u = std::max(u, val(oct_local(c.iOct.iOct), c)); }, Kokkos::Max<double>(mx));
    for (uint32_t q = 0; q < C.mesh->getNumOctants(); q++) {
      Join x;
      for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++)
        x.add(std::to_string((long)val(oct_local(q), CI{{q, false}, (uint32_t)i, (uint32_t)j, (uint32_t)k, 0, 0, 0, CI::LOCAL_TO_BLOCK})));
      vals.add(x.arr());
    }
    if (C.mesh->getNumOctants() == 0) mx = -1;
    Join rd; rd.add(std::to_string(ival(cnt))); rd.add(std::to_string(ival(sum))); rd.add(std::to_string(mx < -1 ? -1 : ival(mx)));
    r += ",\"val\":" + gather(vals.arr()) + ",\"red\":" + gather(rd.arr());
    r += ",\"nc\":" + gather(std::to_string(C.fc->getNumCells())) + ",\"ncg\":" + gather(std::to_string(C.fc->getNumCells_global()));
    emit("cells", r, {"ghosts"});
    return true;
  }
  if (o.name == "nbcells") {
    const LightOctree& lm = C.mesh->getLightOctree();
    auto A = C.fc->allocate_ghosted_array("nb", FieldManager(1));
    auto offs = offsets(o);
    Join oj, all;
    for (auto& f : offs) { char b[64]; snprintf(b, 64, "[%d,%d,%d]", f[0], f[1], f[2]); oj.add(b); }
    uint32_t n = C.mesh->getNumOctants();
    long keep = o.i("sample", 1000);
    for (uint32_t q = 0; q < n; q++) {
      Join cj;
      Oct w = oct_local(q);
      bool take = (long)(hash(o.i("seed", 1), w.l, w.x, w.y, w.z) % 1000) < keep;
      if (take)
        for (int k = 0; k < bz(); k++) for (int j = 0; j < C.by; j++) for (int i = 0; i < C.bx; i++) {
          CI c{{q, false}, (uint32_t)i, (uint32_t)j, (uint32_t)k, (uint32_t)C.bx, (uint32_t)C.by, (uint32_t)bz(), CI::LOCAL_TO_BLOCK};
          Join nj;
          for (auto& f : offs) nj.add(target(lm, c.getNeighbor_ghost(f, A), f, A));
          cj.add(nj.arr());
        }
      all.add(cj.arr());
    }
    std::string g = gather(all.arr());
    emit("nbcells", "\"off\":" + oj.arr() + ",\"nb\":" + g, {});
    return true;
  }
  if (o.name == "patchghost") {
    // ghosted block-local array filled the way the solvers do: for every patch, every cell of the ghosted
    // block is converted to an index of the global array
    const LightOctree& lm = C.mesh->getLightOctree();
    int g = o.i("g", 1);
    auto A = C.fc->allocate_ghosted_array("nb", FieldManager(1));
    FieldManager fm(1);
    auto ref = C.fc->reserve_patch_tmp("tmp", g, g, C.dim == 3 ? g : 0, fm.get_id2index(), 1);
    std::mutex mu; std::mutex* pm = &mu;
    std::vector<std::pair<CI, CI>> v, v2; auto *pv = &v, *pv2 = &v2;
    bool nbmode = o.s("conv", "ghost") == "neighbor";
    C.fc->foreach_patch("p", PATCH_LAMBDA(const ForeachCell::Patch& p) {
      ForeachCell::CellArray_patch T = p.allocate_tmp(ref);
      p.foreach_cell(T, CELL_LAMBDA(const CI& c) {
        CI d = nbmode ? A.convert_index_getNeighbor(c) : A.convert_index_ghost(c);
        T.at_ivar(c, 0) = 1.;
        std::lock_guard<std::mutex> l(*pm); pv->push_back({c, d});
      });
      p.foreach_cell(A.getShape(), CELL_LAMBDA(const CI& c) {   // and back: the inner cells
        CI d = T.convert_index(c);
        std::lock_guard<std::mutex> l(*pm); pv2->push_back({c, d});
      });
    });
    Join j, j2;
    for (auto& x : v) {
      char b[64]; snprintf(b, 64, ",%d,%d,%d,", (int)x.first.i - g, (int)x.first.j - g, C.dim == 3 ? (int)x.first.k - g : 0);
      CI::offset_t none{2, 2, 2};   // no siblings
      j.add("[" + octjs(lm, x.first.iOct) + b + target(lm, x.second, none, A) + "]");
    }
    for (auto& x : v2) {
      char b[96]; snprintf(b, 96, ",%d,%d,%d,%d,%d,%d]", (int)x.first.i, (int)x.first.j, (int)x.first.k, (int)x.second.i - g, (int)x.second.j - g, C.dim == 3 ? (int)x.second.k - g : 0);
      j2.add("[" + octjs(lm, x.first.iOct) + b);
    }
    std::string a = gather(j.arr()), b = gather(j2.arr());
    emit("patchghost", "\"g\":" + std::to_string(g) + ",\"conv\":" + jstr(nbmode ? "neighbor" : "ghost") + ",\"m\":" + a + ",\"inner\":" + b, {});
    return true;
  }
  if (o.name == "cellpos") {
    // the cell of a position, asked on the rank owning it
    auto md = C.fc->getCellMetaData();
    const LightOctree& lm = C.mesh->getLightOctree();
    Join all; long cnt = o.i("count", 20), seed = o.i("seed", 1);
    for (long p = 0; p < cnt; p++) {
      long q[3] = {0, 0, 0}; ForeachCell::CellMetaData::pos_t pos{C.lo[0], C.lo[1], C.lo[2]};
      LightOctree::pos_t u{0, 0, 0};
      int bb[3] = {C.bx, C.by, bz()};
      for (int d = 0; d < C.dim; d++) {
        long nf = (long)C.cgs[d] * (1L << (C.lmax - C.lmin)) * bb[d] * 2;   // half finest cells
        q[d] = hash(seed, p, d) % (uint64_t)nf;
        if (p < 8) q[d] = (p >> d) & 1 ? nf - 1 : 0;
        u[d] = (q[d] + 0.5) / nf;
        pos[d] = C.lo[d] + (C.hi[d] - C.lo[d]) * u[d];
      }
      bool mine = (int)lm.getDomainFromPos(u) == C.rank;
      if (!mine) continue;
      CI c = md.getCellFromPos(pos);
      char b[96]; snprintf(b, 96, "[[%ld,%ld,%ld],", q[0], q[1], q[2]);
      all.add(b + cell(lm, c) + "]");
    }
    std::string g = gather(all.arr());
    emit("cellpos", "\"pts\":" + g, {});
    return true;
  }
  return false;
}
}
