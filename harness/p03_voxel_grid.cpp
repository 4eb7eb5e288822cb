// P03: dense voxel grid against an array with default and out-of-bounds values.
#include "trap.hpp"

#include <arc_utilities/voxel_grid.hpp>
typedef VoxelGrid::GRID_INDEX GI;

template <typename T>
struct Val;
template <>
struct Val<int> {
  static int make(int i) { return 100 + i; }
  static uint64_t ser(const int& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int>(v, b); }
  static std::pair<int, uint64_t> des(const std::vector<uint8_t>& b, const uint64_t c) { return arc_utilities::DeserializeFixedSizePOD<int>(b, c); }
};
template <>
struct Val<std::string> {
  static std::string make(int i) { return "a rather long value that is allocated on the heap " + std::to_string(i); }
  static uint64_t ser(const std::string& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeString<char>(v, b); }
  static std::pair<std::string, uint64_t> des(const std::vector<uint8_t>& b, const uint64_t c) { return arc_utilities::DeserializeString<char>(b, c); }
};

template <typename T>
struct Model {
  int64_t n[3];
  double cs[3];
  std::map<std::array<int64_t, 3>, T> cells;  // every in-bounds cell
  T def, oob;
  Eigen::Isometry3d origin;
  void fill(const T& v) {
    cells.clear();
    for (int64_t x = 0; x < n[0]; x++)
      for (int64_t y = 0; y < n[1]; y++)
        for (int64_t z = 0; z < n[2]; z++) cells[{x, y, z}] = v;
  }
  bool in(int64_t x, int64_t y, int64_t z) const {
    return x >= 0 && y >= 0 && z >= 0 && x < n[0] && y < n[1] && z < n[2];
  }
};

template <typename T>
void compare(mc::Run& r, VoxelGrid::VoxelGrid<T>& g, const Model<T>& m, const char* who) {
  const VoxelGrid::VoxelGrid<T>& c = g;
  MC_CHECK(c.IsInitialized(), who);
  MC_CHECK(c.GetNumXCells() == m.n[0] && c.GetNumYCells() == m.n[1] && c.GetNumZCells() == m.n[2], mc::cat(who, ": cell counts"));
  MC_CHECK(c.GetCellSizes() == Eigen::Vector3d(m.cs[0], m.cs[1], m.cs[2]), mc::cat(who, ": cell sizes"));
  MC_CHECK(c.GetXSize() == m.cs[0] * (double)m.n[0] && c.GetYSize() == m.cs[1] * (double)m.n[1] && c.GetZSize() == m.cs[2] * (double)m.n[2], mc::cat(who, ": extents"));
  MC_CHECK(c.GetDefaultValue() == m.def, mc::cat(who, ": default value"));
  MC_CHECK(c.GetOOBValue() == m.oob, mc::cat(who, ": out-of-bounds value"));
  MC_CHECK(c.GetOriginTransform().matrix() == m.origin.matrix(), mc::cat(who, ": origin"));
  MC_CHECK(c.GetInverseOriginTransform().isApprox(m.origin.inverse(), 1e-12), mc::cat(who, ": inverse origin"));
  MC_CHECK(c.GetImmutableRawData().size() == m.cells.size(), mc::cat(who, ": number of cells"));
  std::multiset<T> raw(c.GetImmutableRawData().begin(), c.GetImmutableRawData().end()), want;
  for (auto& kv : m.cells) want.insert(kv.second);
  MC_CHECK(raw == want, mc::cat(who, ": raw data is not the bag of cell values"));
  for (int64_t x = -2; x <= m.n[0] + 1; x++)
    for (int64_t y = -2; y <= m.n[1] + 1; y++)
      for (int64_t z = -2; z <= m.n[2] + 1; z++) {
        const bool in = m.in(x, y, z);
        const T& want = in ? m.cells.at({x, y, z}) : m.oob;
        std::pair<const T&, bool> a = c.GetImmutable(x, y, z);
        std::pair<const T&, bool> b = c.GetImmutable(GI(x, y, z));
        std::pair<T&, bool> d = g.GetMutable(x, y, z);
        std::pair<T&, bool> e = g.GetMutable(GI(x, y, z));
        MC_CHECK(a.second == in && b.second == in && d.second == in && e.second == in, mc::cat(who, ": found flag at ", x, ",", y, ",", z, " expected ", in));
        MC_CHECK(a.first == want && b.first == want && d.first == want && e.first == want, mc::cat(who, ": value at ", x, ",", y, ",", z, " is ", a.first, "/", b.first, "/", d.first, "/", e.first, " expected ", want));
        MC_CHECK(c.IndexInBounds(x, y, z) == in && c.IndexInBounds(GI(x, y, z)) == in, mc::cat(who, ": bounds"));
      }
}

template <typename T>
struct World {
  VoxelGrid::VoxelGrid<T> g;
  Model<T> m;
};

// every way to construct/initialise a grid
template <typename T>
void make(mc::Run& r, World<T>& w, const std::array<int64_t, 3>& n, int how) {
  const bool uniform = how & 1, by_extent = how & 2, with_origin = how & 4, with_oob = how & 8, initialize = how & 16;
  Model<T>& m = w.m;
  for (int i = 0; i < 3; i++) {
    m.n[i] = n[(size_t)i];
    m.cs[i] = uniform ? 0.5 : 0.25 * (1 << i);
  }
  m.def = Val<T>::make(1);
  m.oob = with_oob ? Val<T>::make(2) : m.def;
  double ext[3];
  // an extent that is not a multiple of the cell size is rounded up
  const bool exact = (m.n[0] + m.n[1] + m.n[2]) % 2 != 0;
  for (int i = 0; i < 3; i++) ext[i] = m.cs[i] * ((double)m.n[i] - (exact ? 0.0 : 0.25 * (double)(1 + i)));
  Eigen::Isometry3d o = Eigen::Translation3d(1, -2, 3) * Eigen::Quaterniond(0.5, 0.5, -0.5, 0.5);
  if (!with_origin)
    o = Eigen::Translation3d(-0.5 * m.cs[0] * (double)m.n[0], -0.5 * m.cs[1] * (double)m.n[1], -0.5 * m.cs[2] * (double)m.n[2]) * Eigen::Quaterniond::Identity();
  m.origin = o;
  m.fill(m.def);
  typedef VoxelGrid::VoxelGrid<T> G;
  const double *c = m.cs, *e = ext;
  const int64_t* k = m.n;
  const T &d = m.def, &b = m.oob;
  if (initialize) {
    if (with_origin) {
      if (by_extent) w.g.Initialize(o, c[0], c[1], c[2], e[0], e[1], e[2], d, b);
      else w.g.Initialize(o, c[0], c[1], c[2], k[0], k[1], k[2], d, b);
    } else {
      if (by_extent) w.g.Initialize(c[0], c[1], c[2], e[0], e[1], e[2], d, b);
      else w.g.Initialize(c[0], c[1], c[2], k[0], k[1], k[2], d, b);
    }
    return;
  }
#define MAKE(O, SIZES)                                       \
  {                                                          \
    if (uniform && with_oob) w.g = G(O c[0], SIZES, d, b);   \
    if (uniform && !with_oob) w.g = G(O c[0], SIZES, d);     \
    if (!uniform && with_oob) w.g = G(O c[0], c[1], c[2], SIZES, d, b); \
    if (!uniform && !with_oob) w.g = G(O c[0], c[1], c[2], SIZES, d);   \
  }
#define COMMA ,
#define EXT e[0], e[1], e[2]
#define CNT k[0], k[1], k[2]
  if (with_origin) {
    if (by_extent) {
      if (uniform && with_oob) w.g = G(o, c[0], EXT, d, b);
      if (uniform && !with_oob) w.g = G(o, c[0], EXT, d);
      if (!uniform && with_oob) w.g = G(o, c[0], c[1], c[2], EXT, d, b);
      if (!uniform && !with_oob) w.g = G(o, c[0], c[1], c[2], EXT, d);
    } else {
      if (uniform && with_oob) w.g = G(o, c[0], CNT, d, b);
      if (uniform && !with_oob) w.g = G(o, c[0], CNT, d);
      if (!uniform && with_oob) w.g = G(o, c[0], c[1], c[2], CNT, d, b);
      if (!uniform && !with_oob) w.g = G(o, c[0], c[1], c[2], CNT, d);
    }
  } else {
    if (by_extent) {
      if (uniform && with_oob) w.g = G(c[0], EXT, d, b);
      if (uniform && !with_oob) w.g = G(c[0], EXT, d);
      if (!uniform && with_oob) w.g = G(c[0], c[1], c[2], EXT, d, b);
      if (!uniform && !with_oob) w.g = G(c[0], c[1], c[2], EXT, d);
    } else {
      if (uniform && with_oob) w.g = G(c[0], CNT, d, b);
      if (uniform && !with_oob) w.g = G(c[0], CNT, d);
      if (!uniform && with_oob) w.g = G(c[0], c[1], c[2], CNT, d, b);
      if (!uniform && !with_oob) w.g = G(c[0], c[1], c[2], CNT, d);
    }
  }
}

template <typename T>
bool set_value(VoxelGrid::VoxelGrid<T>& g, int how, int64_t x, int64_t y, int64_t z, const T& v) {
  switch (how) {
    case 0: return g.SetValue(x, y, z, v);
    case 1: return g.SetValue(GI(x, y, z), v);
    case 2: return g.SetValue(x, y, z, T(v));
    case 3: return g.SetValue(GI(x, y, z), T(v));
    case 4: return g.SetValue4d(g.GridIndexToLocation(GI(x, y, z)), v);
    case 5: { Eigen::Vector4d p = g.GridIndexToLocation(x, y, z); return g.SetValue3d(Eigen::Vector3d(p(0), p(1), p(2)), v); }
    case 6: { Eigen::Vector4d p = g.GridIndexToLocation(x, y, z); return g.SetValue((double)p(0), (double)p(1), (double)p(2), v); }
    case 7: { Eigen::Vector4d p = g.GridIndexToLocation(x, y, z); return g.SetValue((double)p(0), (double)p(1), (double)p(2), T(v)); }
    case 8: { Eigen::Vector4d p = g.GridIndexToLocation(x, y, z); return g.SetValue3d(Eigen::Vector3d(p(0), p(1), p(2)), T(v)); }
    case 9: return g.SetValue4d(g.GridIndexToLocation(GI(x, y, z)), T(v));
    default: {
      std::pair<T&, bool> q = how == 10 ? g.GetMutable(x, y, z) : how == 11 ? g.GetMutable(GI(x, y, z)) : g.GetMutable4d(g.GridIndexToLocation(GI(x, y, z)));
      if (q.second) q.first = v;
      return q.second;
    }
  }
}

MC_SCENARIO(construct, "all shapes up to 3x3x3 x 32 ways to construct or initialise; every index from -2 to n+1 read 4 ways", 2) {
  World<int> w;
  std::array<int64_t, 3> n = {{1 + r.choose(3, "nx"), 1 + r.choose(3, "ny"), 1 + r.choose(3, "nz")}};
  int how = r.choose(32, "constructor");
  VoxelGrid::VoxelGrid<int> blank;
  MC_CHECK(!blank.IsInitialized(), "default constructed");
  MC_CHECK(!blank.GetImmutable((int64_t)0, (int64_t)0, (int64_t)0).second, "default constructed grid has no cells");
  make(r, w, n, how);
  r.step();
  compare(r, w.g, w.m, "new grid");
  r.state(mc::cat(n[0], n[1], n[2], "/", how));
}

MC_SCENARIO(one_write, "all shapes up to 3x3x3, every index from -1 to n (and far away), 13 ways to write; all other cells unchanged", 3) {
  World<int> w;
  std::array<int64_t, 3> n = {{1 + r.choose(3, "nx"), 1 + r.choose(3, "ny"), 1 + r.choose(3, "nz")}};
  make(r, w, n, 8 + 16 + 4 * r.choose(2, "origin"));
  // distinct values everywhere first
  int k = 0;
  for (auto& kv : w.m.cells) {
    kv.second = 1000 + k++;
    MC_CHECK(w.g.SetValue(kv.first[0], kv.first[1], kv.first[2], kv.second), "in-bounds write failed");
    r.step();
  }
  int64_t i[3];
  for (int a = 0; a < 3; a++) i[a] = r.choose((int)n[(size_t)a] + 2, "index") - 1;
  const int how = r.choose(13, "setter");
  const bool ok = set_value(w.g, how, i[0], i[1], i[2], 7);
  r.step();
  MC_CHECK(ok == w.m.in(i[0], i[1], i[2]), mc::cat("write to ", i[0], ",", i[1], ",", i[2], " reported ", ok));
  if (ok) w.m.cells[{i[0], i[1], i[2]}] = 7;
  compare(r, w.g, w.m, "after the write");
  r.state(mc::cat(n[0], n[1], n[2], i[0], i[1], i[2], how));
}

MC_SCENARIO(long_axes, "grids of 1..300 cells along each axis in turn, all cells distinct", 2) {
  static const int64_t L[] = {5, 16, 127, 129, 255, 256, 257, 300};
  World<int> w;
  std::array<int64_t, 3> n = {{1, 1, 1}};
  int a = r.choose(3, "axis");
  n[(size_t)a] = L[r.choose(8, "length")];
  n[(size_t)((a + 1) % 3)] = 1 + r.choose(3, "second");
  make(r, w, n, 8 + 16);
  int k = 0;
  for (auto& kv : w.m.cells) {
    kv.second = 1000 + k++;
    MC_CHECK(w.g.SetValue(kv.first[0], kv.first[1], kv.first[2], kv.second), "in-bounds write failed");
    r.step();
  }
  MC_CHECK(!w.g.SetValue(n[0], (int64_t)0, (int64_t)0, 1) && !w.g.SetValue((int64_t)0, n[1], (int64_t)0, 1) && !w.g.SetValue((int64_t)0, (int64_t)0, n[2], 1), "out-of-bounds write accepted");
  compare(r, w.g, w.m, "filled");
  std::vector<uint8_t> b;
  VoxelGrid::VoxelGrid<int>::Serialize(w.g, b, Val<int>::ser);
  World<int> c;
  c.g.DeserializeSelf(b, 0, Val<int>::des);
  compare(r, c.g, w.m, "restored");
  r.state(mc::cat(n[0], ".", n[1], ".", n[2]));
}

template <typename T>
void history(mc::Run& r, int depth) {
  static const std::array<int64_t, 3> SH[] = {{{1, 1, 1}}, {{2, 1, 1}}, {{1, 2, 1}}, {{1, 1, 2}}, {{2, 3, 1}}, {{3, 1, 2}}, {{1, 2, 3}}, {{2, 2, 2}}};
  World<T> w;
  const int s = r.choose(4, "shape") * 2 + 1;
  make(r, w, SH[s], 8 + 16 + 4);
  std::vector<std::shared_ptr<World<T>>> saved;  // earlier copies, which must not change any more
  int fresh = 10;
  for (int step = 0; step < depth; step++) {
    const int op = r.choose(18, "operation");
    r.step();
    Model<T>& m = w.m;
    VoxelGrid::VoxelGrid<T>& g = w.g;
    const T v = Val<T>::make(fresh++);
    switch (op) {
      case 0: case 1: case 2: case 3: case 4: case 5: {
        // first, last and a middle cell, or one step outside each face
        int64_t i[3] = {0, 0, 0};
        const int which = op == 5 ? 3 + r.choose(6, "outside") : r.choose(3, "cell");
        if (which == 1) for (int a = 0; a < 3; a++) i[a] = m.n[a] - 1;
        if (which == 2) i[1] = m.n[1] / 2, i[2] = m.n[2] - 1;
        if (which >= 3) i[(which - 3) / 2] = (which - 3) % 2 ? m.n[(which - 3) / 2] : -1;
        static const int hows[] = {0, 3, 10, 4, 7, 1};
        bool ok = set_value(g, hows[op], i[0], i[1], i[2], v);
        MC_CHECK(ok == m.in(i[0], i[1], i[2]), "write result");
        if (ok) m.cells[{i[0], i[1], i[2]}] = v;
        break;
      }
      case 6: g.ResetWithDefault(); m.fill(m.def); break;
      case 7: g.ResetWithNewValue(v); m.fill(v); break;
      case 8: g.ResetWithNewDefault(v); m.def = v; m.fill(v); break;
      case 9: g.SetDefaultValue(v); m.def = v; break;
      case 10: g.SetOOBValue(v); m.oob = v; break;
      case 11: {  // keep a copy aside and go on with the original, or the other way round
        auto c = std::make_shared<World<T>>();
        if (r.flip("clone")) {
          std::unique_ptr<VoxelGrid::VoxelGrid<T>> p(g.Clone());
          c->g = *p;
        } else {
          c->g = g;
        }
        c->m = m;
        saved.push_back(c);
        break;
      }
      case 12: {  // serialization round trip at an offset
        std::vector<uint8_t> b((size_t)r.choose(2, "offset") * 5, 0xee);
        const size_t at = b.size();
        uint64_t n = VoxelGrid::VoxelGrid<T>::Serialize(g, b, Val<T>::ser);
        MC_CHECK(n == b.size() - at, "serialized size");
        b.push_back(1);
        auto d = VoxelGrid::VoxelGrid<T>::Deserialize(b, at, Val<T>::des);
        MC_CHECK(d.second == n, "bytes read");
        g = d.first;
        break;
      }
      case 13: {  // raw data: right and wrong sizes
        std::vector<T> d = g.GetImmutableRawData();
        const int how = r.choose(3, "raw");
        if (how == 0) d.push_back(v);
        if (how == 1) d.pop_back();
        if (how == 2) {
          for (auto& x : d) x = v;
        }
        bool ok = g.SetRawData(d);
        MC_CHECK(ok == (how == 2), "raw data accepted");
        if (ok) m.fill(v);
        break;
      }
      case 14: {  // change of shape
        int s2 = r.choose(8, "new shape");
        make(r, w, SH[s2], 8 + 16 + (s2 & 1 ? 4 : 0));
        break;
      }
      case 15: {  // reset to what the grid itself holds
        static const char* what[] = {"a cell", "the out-of-bounds value"};
        const int64_t i = r.choose(2, what[0]) ? m.n[0] - 1 : -1;
        const T held = g.GetImmutable(i, 0, 0).first;
        if (r.flip("as default")) {
          g.ResetWithNewDefault(g.GetImmutable(i, (int64_t)0, (int64_t)0).first);
          m.def = held;
        } else {
          g.ResetWithNewValue(g.GetImmutable(i, (int64_t)0, (int64_t)0).first);
        }
        m.fill(held);
        break;
      }
      case 16: {  // a failed load: the serialized form of another grid, cut short
        World<T> other;
        make(r, other, SH[1 + 3 * r.choose(2, "loaded shape")], 8 + 16);
        std::vector<uint8_t> b;
        VoxelGrid::VoxelGrid<T>::Serialize(other.g, b, Val<T>::ser);
        const size_t cuts[] = {1, 264 + 8, b.size() - 60, b.size() - 1};
        b.resize(std::min(b.size() - 1, cuts[r.choose(4, "cut")]));
        if (!trap::refused([&] { g.DeserializeSelf(b, 0, Val<T>::des); })) r.fail("a truncated buffer was accepted");
        break;
      }
      default: {
        Eigen::Isometry3d o = Eigen::Translation3d(0, step, 1) * Eigen::Quaterniond(0, 0, 1, 0);
        g.UpdateOriginTransform(o);
        m.origin = o;
      }
    }
    compare(r, g, m, "grid");
    for (auto& c : saved) compare(r, c->g, c->m, "an earlier copy");
    r.state(mc::cat(m.n[0], m.n[1], m.n[2], m.def, m.oob, [&]() { std::string z; for (auto& kv : m.cells) z += mc::str(kv.second) + ","; return z; }()));
  }
}
MC_SCENARIO(histories, "4 shapes, all sequences of 18 kinds of operation (with arguments), depth 3 (4 thorough), earlier copies re-checked", 3) { history<int>(r, r.bound(3, 4)); }
MC_SCENARIO(histories_strings, "the same with heap-allocated values, depth 2 (3 thorough)", 3) { history<std::string>(r, r.bound(2, 3)); }

MC_SCENARIO(failed_loads, "4 grids (one never initialised) x 3 stored grids of other shapes (one of the same number of cells), the stored form cut at every byte: the load is refused and the grid is what it was; the complete form replaces it", 3) {
  static const std::array<int64_t, 3> SH[] = {{{1, 1, 1}}, {{2, 3, 1}}, {{3, 1, 2}}, {{1, 2, 3}}};
  const int s = r.choose(4, "grid"), o = 1 + r.choose(3, "stored");
  World<int> w, other;
  if (s) make(r, w, SH[s], 8 + 16);
  make(r, other, SH[o], 8 + 16);
  int k = 100;
  for (auto& kv : w.m.cells) w.g.SetValue(kv.first[0], kv.first[1], kv.first[2], kv.second = k++);
  for (auto& kv : other.m.cells) other.g.SetValue(kv.first[0], kv.first[1], kv.first[2], kv.second = k++);
  std::vector<uint8_t> full;
  VoxelGrid::VoxelGrid<int>::Serialize(other.g, full, Val<int>::ser);
  for (size_t cut = 0; cut < full.size(); cut++) {
    const std::vector<uint8_t> b(full.begin(), full.begin() + (long)cut);
    r.step();
    if (!trap::refused([&] { w.g.DeserializeSelf(b, 0, Val<int>::des); })) r.fail(mc::cat("a stored grid cut to ", cut, " of ", full.size(), " bytes was accepted"));
    if (w.g.IsInitialized() != (s != 0)) r.fail(mc::cat("after a failed load (", cut, " of ", full.size(), " bytes) the grid ", s ? "is no longer initialised" : "claims to be initialised"));
    if (s) compare(r, w.g, w.m, "the grid after a failed load");
  }
  MC_CHECK(w.g.DeserializeSelf(full, 0, Val<int>::des) == full.size(), "bytes read");
  compare(r, w.g, other.m, "the loaded grid");
  r.state(mc::cat(s, o));
}

MC_SCENARIO(rejected_sizes, "every single invalid size argument is refused", 1) {
  const double bad[] = {0.0, -1.0, std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()};
  double a[6] = {1, 1, 1, 2, 2, 2};
  int64_t k[3] = {2, 2, 2};
  const int which = r.choose(9, "argument");
  const int b = r.choose(4, "bad value");
  if (which < 6) a[which] = bad[b];
  else k[which - 6] = -(b % 2);
  const bool origin = r.flip("origin");
  Eigen::Isometry3d o = Eigen::Isometry3d::Identity();
  VoxelGrid::VoxelGrid<int> g;
  r.step();
  bool threw = trap::refused([&]() {
    if (which < 3 && r.flip("by count")) {
      if (origin) g.Initialize(o, a[0], a[1], a[2], k[0], k[1], k[2], 0, 1);
      else g.Initialize(a[0], a[1], a[2], k[0], k[1], k[2], 0, 1);
    } else if (which < 6) {
      if (origin) g.Initialize(o, a[0], a[1], a[2], a[3], a[4], a[5], 0, 1);
      else g.Initialize(a[0], a[1], a[2], a[3], a[4], a[5], 0, 1);
    } else {
      if (origin) g.Initialize(o, a[0], a[1], a[2], k[0], k[1], k[2], 0, 1);
      else g.Initialize(a[0], a[1], a[2], k[0], k[1], k[2], 0, 1);
    }
  });
  MC_CHECK(threw, mc::cat("argument ", which, " with an invalid value was accepted"));
  r.state(mc::cat(which, b, origin));
}

MC_SCENARIO(raw_cells, "all shapes up to 3x3x3, every position of the raw data written in turn: exactly one cell changes, a different one for each position, and position numbers tell cells apart; index triples compare and hash by their parts", 2) {
  int64_t n[3];
  for (auto& k : n) k = 1 + r.choose(3, "cells");
  typedef VoxelGrid::VoxelGrid<int> G;
  G g(Eigen::Isometry3d::Identity(), 1.0, 1.0, 1.0, n[0], n[1], n[2], 0, -1);
  std::set<uint64_t> codes;
  std::set<std::vector<int64_t>> hit;
  std::unordered_map<GI, int> map;
  const size_t total = (size_t)(n[0] * n[1] * n[2]);
  MC_CHECK(g.GetMutableRawData().size() == total && &g.GetMutableRawData() == &g.GetImmutableRawData(), "raw data");
  for (size_t k = 0; k < total; k++) {
    G h = g;
    h.GetMutableRawData()[k] = 5;
    r.step();
    int changed = 0;
    for (int64_t x = 0; x < n[0]; x++)
      for (int64_t y = 0; y < n[1]; y++)
        for (int64_t z = 0; z < n[2]; z++)
          if (h.GetImmutable(x, y, z).first != 0) {
            changed++;
            hit.insert({x, y, z});
            codes.insert(h.HashDataIndex(x, y, z));
            map[GI(x, y, z)] = (int)k;
            for (int64_t a = 0; a < n[0]; a++)
              for (int64_t b = 0; b < n[1]; b++)
                for (int64_t c = 0; c < n[2]; c++) {
                  const bool same = a == x && b == y && c == z;
                  MC_CHECK((GI(a, b, c) == GI(x, y, z)) == same, "comparison of two indices");
                  if (same) MC_CHECK(std::hash<GI>()(GI(a, b, c)) == std::hash<GI>()(GI(x, y, z)), "hash of an index");
                }
          }
    MC_CHECK(changed == 1, mc::cat("writing raw position ", k, " changed ", changed, " cells"));
  }
  MC_CHECK(hit.size() == total && codes.size() == total && map.size() == total, "two cells share a position");
  r.state(mc::cat(n[0], n[1], n[2]));
}
