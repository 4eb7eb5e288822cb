// P05: the dynamic spatially hashed voxel grid against a two-level map.
#include "trap.hpp"

#include <arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
typedef VoxelGrid::DynamicSpatialHashedVoxelGrid<int> G;
using namespace VoxelGrid;

struct Idx {
  int64_t v[3];
  bool operator<(const Idx& o) const { return std::lexicographical_compare(v, v + 3, o.v, o.v + 3); }
  bool operator==(const Idx& o) const { return v[0] == o.v[0] && v[1] == o.v[1] && v[2] == o.v[2]; }
};
struct MChunk {
  bool whole = false;
  int value = 0;
  std::map<Idx, int> cells;  // explicit writes
  int base = 0;              // value of cells never written
};
struct Model {
  int64_t n[3];
  int def = 0;
  std::map<Idx, MChunk> chunks;
  static int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }
  Idx chunk_of(const Idx& c) const { return Idx{{fdiv(c.v[0], n[0]), fdiv(c.v[1], n[1]), fdiv(c.v[2], n[2])}}; }
  std::pair<int, FOUND_STATUS> get(const Idx& c) const {
    auto it = chunks.find(chunk_of(c));
    if (it == chunks.end()) return {def, NOT_FOUND};
    if (it->second.whole) return {it->second.value, FOUND_IN_CHUNK};
    auto f = it->second.cells.find(c);
    return {f == it->second.cells.end() ? it->second.base : f->second, FOUND_IN_CELL};
  }
  void set_cell(const Idx& c, int v) {
    auto it = chunks.find(chunk_of(c));
    if (it == chunks.end()) {
      MChunk m;
      m.base = def;
      m.cells[c] = v;
      chunks[chunk_of(c)] = m;
      return;
    }
    MChunk& m = it->second;
    if (m.whole) {
      m.whole = false;
      m.cells.clear();
      m.base = m.value;
    }
    m.cells[c] = v;
  }
  void set_chunk(const Idx& c, int v) {
    MChunk m;
    m.whole = true;
    m.value = v;
    chunks[chunk_of(c)] = m;
  }
  void put(const Idx& c, int v) {  // through a mutable reference
    MChunk& m = chunks[chunk_of(c)];
    if (m.whole) {
      m.value = v;
    } else {
      m.cells[c] = v;
    }
  }
  std::string key() const {
    std::string s = mc::cat(def, ";");
    for (auto& c : chunks) {
      s += mc::cat(c.first.v[0], ",", c.first.v[1], ",", c.first.v[2], c.second.whole ? "W" : "C", c.second.whole ? c.second.value : c.second.base);
      if (!c.second.whole)
        for (auto& k : c.second.cells) s += mc::cat("/", k.first.v[0], ",", k.first.v[1], ",", k.first.v[2], "=", k.second);
    }
    return s;
  }
};

struct World {
  G g;
  Model m;
  double cs[3];
  Eigen::Isometry3d o;
  // a point inside the cell: at the low corner or strictly inside
  Eigen::Vector3d at(const Idx& c, int where) const {
    static const double F[3] = {0.5, 0.0, 0.875};
    return o * Eigen::Vector3d(((double)c.v[0] + F[where]) * cs[0], ((double)c.v[1] + F[where]) * cs[1], ((double)c.v[2] + F[where]) * cs[2]);
  }
};

static void verify_point(mc::Run& r, World& w, const Idx& c, int where) {
  const Eigen::Vector3d p = w.at(c, where);
  const auto want = w.m.get(c);
  const G& cg = w.g;
  r.step();
  auto chk = [&](int v, FOUND_STATUS s, const char* how) {
    if (v != want.first || s != want.second)
      r.fail(mc::cat(how, " at cell ", c.v[0], ",", c.v[1], ",", c.v[2], " position ", where, ": value ", v, " status ", (int)s, " expected ", want.first, " status ", (int)want.second, " history state ", w.m.key()));
  };
  auto a = cg.GetImmutable(p);
  chk(a.first, a.second, "GetImmutable(vector)");
  auto b = cg.GetImmutable(p.x(), p.y(), p.z());
  chk(b.first, b.second, "GetImmutable(x,y,z)");
  auto e = w.g.GetMutable(p);
  chk(e.first, e.second, "GetMutable(vector)");
  auto d = w.g.GetMutable(p.x(), p.y(), p.z());
  chk(d.first, d.second, "GetMutable(x,y,z)");
}
// Every cell of the region spanned, at three positions each.
static void verify(mc::Run& r, World& w, int64_t lo, int64_t hi) {
  for (int64_t x = lo; x < hi; x++)
    for (int64_t y = lo; y < hi; y++)
      for (int64_t z = lo; z < hi; z++)
        for (int k = 0; k < 3; k++) verify_point(r, w, Idx{{x, y, z}}, k);
  MC_CHECK(w.g.GetInternalChunks().size() == w.m.chunks.size(), mc::cat(w.g.GetInternalChunks().size(), " chunks, expected ", w.m.chunks.size()));
  // every chunk object reports where its elements are and holds their values
  for (auto& kv : w.g.GetInternalChunks()) {
    const auto& ch = kv.second;
    Idx cb;
    for (int i = 0; i < 3; i++) cb.v[i] = (int64_t)std::llround(kv.first.base(i) / (w.cs[i] * (double)w.m.n[i]));
    auto it = w.m.chunks.find(cb);
    MC_CHECK(it != w.m.chunks.end(), mc::cat("unexpected chunk ", cb.v[0], ",", cb.v[1], ",", cb.v[2]));
    MC_CHECK(ch.IsChunkInitialized() == it->second.whole && ch.IsCellInitialized() == !it->second.whole, "chunk kind");
    int64_t n[3] = {ch.GetNumXCells(), ch.GetNumYCells(), ch.GetNumZCells()};
    for (int i = 0; i < 3; i++) MC_CHECK(n[i] == (it->second.whole ? 1 : w.m.n[i]), "number of cells in the chunk");
    auto es = ch.GetElementSize();
    for (int i = 0; i < 3; i++) MC_CHECK(es[(size_t)i] == w.cs[i] * (it->second.whole ? (double)w.m.n[i] : 1.0), "element size");
    for (int64_t x = -1; x <= n[0]; x++)
      for (int64_t y = -1; y <= n[1]; y++)
        for (int64_t z = -1; z <= n[2]; z++) {
          const bool in = x >= 0 && y >= 0 && z >= 0 && x < n[0] && y < n[1] && z < n[2];
          auto v = ch.GetImmutableByIndex(x, y, z);
          auto l = ch.GetIndexLocationInGrid(x, y, z);
          MC_CHECK(v.second == in && (l.size() == 3) == in, "chunk index bounds");
          if (!in) continue;
          const int64_t ix[3] = {x, y, z};
          Idx c;
          for (int i = 0; i < 3; i++) {
            c.v[i] = cb.v[i] * w.m.n[i] + ix[i];
            const double want = it->second.whole ? ((double)cb.v[i] + 0.5) * w.cs[i] * (double)w.m.n[i] : ((double)c.v[i] + 0.5) * w.cs[i];
            MC_CHECK(std::fabs(l[(size_t)i] - want) < 1e-9, "location of a chunk element");
          }
          MC_CHECK(v.first == w.m.get(c).first, "value of a chunk element");
        }
  }
}

static void setup(mc::Run& r, World& w, int config) {
  static const int64_t N[][3] = {{2, 1, 1}, {2, 2, 1}, {1, 1, 3}, {1, 2, 1}, {2, 2, 2}};
  static const double CS[][3] = {{1, 1, 1}, {0.5, 0.25, 2}, {0.25, 2, 1}, {1, 0.5, 0.5}, {2, 2, 2}};
  for (int i = 0; i < 3; i++) w.m.n[i] = N[config][i], w.cs[i] = CS[config][i];
  w.m.def = 0;
  w.o = Eigen::Isometry3d::Identity();
  if (config != 0) {
    w.o.linear() << 0, -1, 0, 1, 0, 0, 0, 0, 1;
    w.o.translation() << 4, -8, 16;
  }
  const bool uni = w.cs[0] == w.cs[1] && w.cs[1] == w.cs[2];
  switch (r.choose(config == 0 ? 3 : 2, "construction")) {
    case 0:
      w.g = uni ? G(w.o, w.cs[0], w.m.n[0], w.m.n[1], w.m.n[2], 0) : G(w.o, w.cs[0], w.cs[1], w.cs[2], w.m.n[0], w.m.n[1], w.m.n[2], 0);
      break;
    case 1:
      w.g = G();
      w.g.Initialize(w.o, w.cs[0], w.cs[1], w.cs[2], w.m.n[0], w.m.n[1], w.m.n[2], 0);
      break;
    default:
      w.g = G(w.cs[0], w.cs[1], w.cs[2], w.m.n[0], w.m.n[1], w.m.n[2], 0);
      break;
  }
}

static void write_ops(mc::Run& r, World& w, const std::vector<Idx>& pts, int step) {
  const int op = r.choose(6, "op");
  const int v = 10 + step;
  const int cv = v;
  if (op == 5) {
    w.g.SetDefaultValue(v);
    w.m.def = v;
    MC_CHECK(w.g.GetDefaultValue() == v, "default");
    return;
  }
  if (op == 4) {
    // copy; the copy must then evolve alone
    G old = w.g;
    w.g.SetChunkValue(w.at(pts[0], 0), v);
    Model m2 = w.m;
    m2.set_chunk(pts[0], v);
    World keep = w;
    keep.g = old;
    verify_point(r, keep, pts[0], 0);
    w.m = m2;
    return;
  }
  const int pi = r.choose((int)pts.size(), "point");
  const Idx& c = pts[(size_t)pi];
  const Eigen::Vector3d p = w.at(c, pi % 3);
  r.note([&] { return mc::cat("op ", op, " cell ", c.v[0], ",", c.v[1], ",", c.v[2], " value ", v); });
  r.step();
  SET_STATUS s = NOT_SET;
  switch (op) {
    case 0:
      s = step % 4 == 0 ? w.g.SetCellValue(p, cv) : step % 4 == 1 ? w.g.SetCellValue(p.x(), p.y(), p.z(), cv) : step % 4 == 2 ? w.g.SetCellValue(p, std::move(v + 0)) : w.g.SetCellValue(p.x(), p.y(), p.z(), v + 0);
      MC_CHECK(s == SET_CELL, mc::cat("cell write reported ", (int)s));
      w.m.set_cell(c, v);
      break;
    case 1:
      s = w.g.SetChunkValue(p, cv);
      if (step % 2) s = w.g.SetChunkValue(p, v + 0);
      MC_CHECK(s == SET_CHUNK, mc::cat("chunk write reported ", (int)s));
      w.m.set_chunk(c, v);
      break;
    case 2:
      s = step % 2 ? w.g.SetChunkValue(p.x(), p.y(), p.z(), v + 0) : w.g.SetChunkValue(p.x(), p.y(), p.z(), cv);
      MC_CHECK(s == SET_CHUNK, mc::cat("chunk write by coordinates reported ", (int)s));
      w.m.set_chunk(c, v);
      break;
    default: {
      auto got = step % 2 ? w.g.GetMutable(p) : w.g.GetMutable(p.x(), p.y(), p.z());
      const auto want = w.m.get(c);
      MC_CHECK(got.first == want.first && got.second == want.second, "mutable read");
      if (got.second != NOT_FOUND) {
        got.first = v;
        w.m.put(c, v);
      }
    }
  }
}

MC_SCENARIO(histories, "all sequences of cell/chunk/reference writes, default changes and copies over points in four chunks; after the last, every cell of the neighbourhood at three positions is compared with a two-level map", 3) {
  World w;
  const int config = r.choose(r.bound(3, 5), "configuration");
  setup(r, w, config);
  const int64_t* n = w.m.n;
  std::vector<Idx> pts = {Idx{{0, 0, 0}}, Idx{{-1, 0, 0}}, Idx{{n[0] - 1, n[1] - 1, n[2] - 1}}, Idx{{-1, -1, -1}}, Idx{{0, n[1], 0}}};
  const int depth = r.bound(3, config < 2 ? 5 : 4);
  for (int d = 0; d < depth; d++) {
    write_ops(r, w, pts, d);
    r.state(mc::cat(config, w.m.key()));
    if (r.seen(mc::hash_str(mc::cat("x", config, d, w.m.key())), 0) && d + 1 == depth) {
      // same model state reached by another history: still compare, but only where writes can have landed
      for (auto& p : pts) verify_point(r, w, p, 0);
      for (int i = 0; i < 3; i++) verify_point(r, w, Idx{{i, 0, 0}}, 1), verify_point(r, w, Idx{{-1 - i, 0, 0}}, 1);
      return;
    }
  }
  verify(r, w, -4, 5);
}

MC_SCENARIO(each_cell, "one chunk in each state, one write to every cell of it in turn: exactly that cell changes", 3) {
  World w;
  setup(r, w, r.choose(5, "configuration"));
  const int pre = r.choose(3, "chunk state before");
  Idx cb{{r.choose(3, "chunk x") - 1, r.choose(3, "chunk y") - 1, r.choose(3, "chunk z") - 1}}, c;
  Idx first;
  for (int i = 0; i < 3; i++) first.v[i] = cb.v[i] * w.m.n[i];
  if (pre == 1) {
    w.g.SetChunkValue(w.at(first, 0), 5);
    w.m.set_chunk(first, 5);
  } else if (pre == 2) {
    w.g.SetCellValue(w.at(first, 0), 6);
    w.m.set_cell(first, 6);
  }
  for (int i = 0; i < 3; i++) c.v[i] = first.v[i] + r.choose((int)w.m.n[i], "cell");
  const int where = r.choose(3, "position in the cell");
  MC_CHECK(w.g.SetCellValue(w.at(c, where), 9) == SET_CELL, "cell write");
  w.m.set_cell(c, 9);
  r.state(w.m.key());
  verify(r, w, -4, 5);
}

MC_SCENARIO(no_gaps, "cells whose sizes are not exact in binary: points on and one rounding step either side of every face are storable, and a stored value is found again", 2) {
  static const double SZ[] = {0.1, 0.3, 0.7, 1.0 / 3, 0.01, 1.1, 3.3, 0.05};
  const double cs = SZ[r.choose(8, "cell size")];
  const int n = 1 + r.choose(4, "cells per chunk");
  const int axis = r.choose(3, "axis");
  G g(cs, n, n, n, -1);
  for (int k = -64; k <= 64; k++) {
    for (int d = -2; d <= 2; d++) {
      // faces computed both as multiples of the cell and of the chunk size
      for (int how = 0; how < 2; how++) {
        double x = how ? (double)k * (cs * (double)n) : (double)k * cs;
        for (int i = 0; i < std::abs(d); i++) x = std::nextafter(x, d < 0 ? -1e9 : 1e9);
        Eigen::Vector3d p(cs * 0.5, cs * 0.5, cs * 0.5);
        p(axis) = x;
        r.step();
        g.SetCellValue(cs * 1e6, 0, 0, 0);
        SET_STATUS s = g.SetCellValue(p, k + 1000);
        auto f = g.GetImmutable(p);
        MC_CHECK(s == SET_CELL && f.second == FOUND_IN_CELL && f.first == k + 1000, mc::cat("point ", x, " on axis ", axis, " with cell size ", cs, " and ", n, " cells per chunk: write status ", (int)s, " read status ", (int)f.second));
      }
    }
  }
  r.state(mc::cat(cs, n, axis));
}

MC_SCENARIO(bad_sizes, "non-positive, infinite and NaN cell sizes and non-positive cell counts are refused and leave an existing grid as it was", 1) {
  static const double BAD[] = {0, -1, -0.0, 1.0 / 0.0, -1.0 / 0.0, 0.0 / 0.0};
  double c[3] = {1, 1, 1};
  int64_t n[3] = {2, 2, 2};
  const int which = r.choose(6, "which size");
  if (which < 3) c[which] = BAD[r.choose(6, "value")];
  else n[which - 3] = -r.choose(2, "value");
  const int entry = r.choose(4, "entry");
  G g(1.0, 2, 2, 2, 7);
  g.SetCellValue(0.5, 0.5, 0.5, 3);
  r.step();
  const bool refused = trap::refused([&] {
    if (entry == 0) G h(c[0], c[1], c[2], n[0], n[1], n[2], 0);
    if (entry == 1) G h(Eigen::Isometry3d::Identity(), c[0], c[1], c[2], n[0], n[1], n[2], 0);
    if (entry == 2) g.Initialize(c[0], c[1], c[2], n[0], n[1], n[2], 0);
    if (entry == 3) g.Initialize(Eigen::Isometry3d::Identity(), c[0], c[1], c[2], n[0], n[1], n[2], 0);
  });
  MC_CHECK(refused, mc::cat("sizes ", c[0], " ", c[1], " ", c[2], " counts ", n[0], " ", n[1], " ", n[2], " accepted by entry ", entry));
  MC_CHECK(g.GetImmutable(0.5, 0.5, 0.5).first == 3 && g.GetDefaultValue() == 7, "a refused call changed the grid");
  r.state(mc::cat(which, entry, c[0], c[1], c[2]));
}

MC_SCENARIO(uninitialised, "a default-constructed grid says it is not initialised, refuses every read and write, and is usable after Initialize", 1) {
  G g;
  const G& cg = g;
  MC_CHECK(!g.IsInitialized(), "a default-constructed grid claims to be initialised");
  const Eigen::Vector3d p(0.5, 0.5, 0.5);
  const int op = r.choose(8, "operation");
  r.step();
  const bool refused = trap::refused([&] {
    if (op == 0) (void)cg.GetImmutable(p);
    if (op == 1) (void)cg.GetImmutable(0.5, 0.5, 0.5);
    if (op == 2) (void)g.GetMutable(p);
    if (op == 3) (void)g.GetMutable(0.5, 0.5, 0.5);
    if (op == 4) (void)g.SetCellValue(p, 1);
    if (op == 5) (void)g.SetCellValue(0.5, 0.5, 0.5, 1);
    if (op == 6) (void)g.SetChunkValue(p, 1);
    if (op == 7) (void)g.SetChunkValue(0.5, 0.5, 0.5, 1);
  });
  MC_CHECK(refused, mc::cat("operation ", op, " on a grid that was never initialised"));
  G copy = g;
  MC_CHECK(!copy.IsInitialized(), "copy of an uninitialised grid");
  copy.Initialize(Eigen::Isometry3d::Identity(), 1, 1, 1, 2, 2, 2, 7);
  MC_CHECK(copy.IsInitialized() && !g.IsInitialized(), "Initialize of a copy");
  MC_CHECK(copy.SetCellValue(p, 1) == SET_CELL && copy.GetImmutable(p).first == 1, "write after Initialize");
  r.state(mc::cat(op));
}

MC_SCENARIO(one_chunk, "a chunk on its own, of 1-3 x 1-2 x 1-2 cells or undivided, two bases: every index from -2 to n+1 and every cell by location, 6 ways to write one of them; all others keep the initial value, copies stay apart", 2) {
  typedef DynamicSpatialHashedVoxelGridChunk<int> C;
  const bool whole = r.flip("undivided");
  int64_t n[3] = {1, 1, 1};
  if (!whole)
    for (int a = 0; a < 3; a++) n[a] = 1 + r.choose(a ? 2 : 3, "cells");
  const Eigen::Vector3d cell(1, 0.5, 2), base = r.flip("base") ? Eigen::Vector3d(-4, 0.5, 6) : Eigen::Vector3d(0, 0, 0);
  C c = whole ? C(CHUNK_REGION(base), cell.x(), cell.y(), cell.z(), 7) : C(CHUNK_REGION(base), cell.x(), cell.y(), cell.z(), n[0], n[1], n[2], 7);
  const C untouched = c;
  const C& cc = c;
  MC_CHECK(c.IsChunkInitialized() == whole && c.IsCellInitialized() == !whole && !C().IsChunkInitialized() && !C().IsCellInitialized(), "state of a new chunk");
  MC_CHECK(c.GetNumXCells() == n[0] && c.GetNumYCells() == n[1] && c.GetNumZCells() == n[2], "cell counts");
  const auto es = c.GetElementSize();
  MC_CHECK(es.size() == 3 && es[0] == cell.x() && es[1] == cell.y() && es[2] == cell.z(), "element size");
  std::map<Idx, int> m;
  const int how = r.choose(7, "write");  // 0: none
  Idx at{{0, 0, 0}};
  for (int a = 0; a < 3; a++) at.v[a] = r.choose((int)n[a], "cell");
  auto centre = [&](const Idx& i) { return Eigen::Vector3d(base.x() + cell.x() * ((double)i.v[0] + 0.5), base.y() + cell.y() * ((double)i.v[1] + 0.5), base.z() + cell.z() * ((double)i.v[2] + 0.5)); };
  const int v = 42;
  bool did = true;
  if (how == 1) did = c.GetMutableByIndex(at.v[0], at.v[1], at.v[2]).second && (c.GetMutableByIndex(at.v[0], at.v[1], at.v[2]).first = 42) == 42;
  else if (how && whole) {
    if (how == 2 || how == 3) did = c.SetChunkValue(v);
    else if (how == 4) did = c.SetChunkValue(42);
    else c.GetChunkMutable() = 42;
  } else if (how == 2) did = c.SetCellValue(centre(at), v);
  else if (how == 3) did = c.SetCellValue(centre(at), 42);
  else if (how == 4) { auto q = c.GetCellMutable(centre(at)); did = q.second; q.first = 42; }
  else if (how == 5) did = c.SetCellValue(centre(at) + 0.49 * cell, v);
  else if (how == 6) did = c.SetCellValue(centre(at) - 0.49 * cell, v);
  MC_CHECK(did, mc::cat("write ", how, " refused"));
  if (how) m[at] = 42;
  r.step();
  Idx i;
  for (i.v[0] = -2; i.v[0] < n[0] + 2; i.v[0]++)
    for (i.v[1] = -2; i.v[1] < n[1] + 2; i.v[1]++)
      for (i.v[2] = -2; i.v[2] < n[2] + 2; i.v[2]++) {
        bool in = true;
        for (int a = 0; a < 3; a++) in = in && i.v[a] >= 0 && i.v[a] < n[a];
        const int want = m.count(i) ? m[i] : 7;
        const std::string w = mc::cat("index ", i.v[0], " ", i.v[1], " ", i.v[2], " after write ", how);
        const auto q = cc.GetImmutableByIndex(i.v[0], i.v[1], i.v[2]);
        const auto q2 = c.GetMutableByIndex(i.v[0], i.v[1], i.v[2]);
        MC_CHECK(cc.IndexInBounds(i.v[0], i.v[1], i.v[2]) == in && q.second == in && q2.second == in, mc::cat(w, ": in bounds"));
        const auto loc = cc.GetIndexLocationInGrid(i.v[0], i.v[1], i.v[2]);
        MC_CHECK(loc.size() == (in ? 3u : 0u), mc::cat(w, ": location"));
        const Eigen::Vector3d p = centre(i);
        if (!whole) {
          const auto l = cc.GetCellImmutable(p);
          const auto l2 = c.GetCellMutable(p);
          MC_CHECK(l.second == in && l2.second == in && (!in || (l.first == want && l2.first == want)), mc::cat(w, ": by location"));
        }
        if (!in) continue;
        MC_CHECK(q.first == want && q2.first == want && untouched.GetImmutableByIndex(i.v[0], i.v[1], i.v[2]).first == 7, mc::cat(w, ": value ", q.first));
        MC_CHECK(Eigen::Vector3d(loc[0], loc[1], loc[2]) == p, mc::cat(w, ": location"));
        if (whole) MC_CHECK(cc.GetChunkImmutable() == want && c.GetChunkMutable() == want, mc::cat(w, ": chunk value"));
      }
  r.state(mc::cat(whole, n[0], n[1], n[2], how, at.v[0], at.v[1], at.v[2], base.x()));
}
MC_SCENARIO(next_to_borders, "5 configurations of dyadic cells and chunks: points 2^-12, 2^-24 and 2^-36 of a cell on either side of every border of cells -3..3 along each axis, 4 writers: what is written there is found in that cell, and the cell across the border is untouched", 2) {
  World w;
  setup(r, w, r.choose(5, "configuration"));
  const int axis = r.choose(3, "axis"), border = r.choose(7, "border") - 3;
  const double off = r.pick(std::vector<double>{std::ldexp(1.0, -12), std::ldexp(1.0, -24), std::ldexp(1.0, -36), 0, -std::ldexp(1.0, -12), -std::ldexp(1.0, -24), -std::ldexp(1.0, -36)});
  Eigen::Vector3d f(0.5 * w.cs[0], 0.5 * w.cs[1], 0.5 * w.cs[2]);
  f(axis) = (border + off) * w.cs[axis];
  const Eigen::Vector3d p = w.o * f;
  Idx in{{0, 0, 0}}, across{{0, 0, 0}};
  in.v[axis] = off < 0 ? border - 1 : border;
  across.v[axis] = off < 0 ? border : border - 1;
  const int how = r.choose(4, "writer"), v = 9;
  const std::string at = mc::cat("axis ", axis, ", ", off, " of a cell from border ", border, ", writer ", how);
  // a first value everywhere in both cells, so that both chunks exist
  for (const Idx& c : {in, across}) {
    w.g.SetCellValue(w.at(c, 0), 4);
    w.m.set_cell(c, 4);
  }
  r.step();
  if (how == 0 && w.g.SetCellValue(p, v) != SET_CELL) r.fail(at + ": write refused");
  if (how == 1 && w.g.SetCellValue(p.x(), p.y(), p.z(), v) != SET_CELL) r.fail(at + ": write refused");
  if (how == 2) {
    auto m = w.g.GetMutable(p);
    if (m.second != FOUND_IN_CELL) r.fail(at + ": not found");
    m.first = v;
  }
  if (how == 3) {
    auto m = w.g.GetMutable(p.x(), p.y(), p.z());
    if (m.second != FOUND_IN_CELL) r.fail(at + ": not found");
    m.first = v;
  }
  w.m.put(in, v);
  const auto a = w.g.GetImmutable(p), b = w.g.GetImmutable(p.x(), p.y(), p.z());
  if (a.first != v || a.second != FOUND_IN_CELL || b.first != v || b.second != FOUND_IN_CELL) r.fail(at + ": what was written is not found");
  for (int k = 0; k < 3; k++) {
    verify_point(r, w, in, k);
    verify_point(r, w, across, k);
  }
  r.state(mc::cat(at, w.m.key()));
}
