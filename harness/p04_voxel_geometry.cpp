// P04: point and index addressing of the dense voxel grid.
#include "trap.hpp"

#include <arc_utilities/voxel_grid.hpp>
typedef VoxelGrid::GRID_INDEX GI;
typedef VoxelGrid::VoxelGrid<int> G;

static std::vector<Eigen::Matrix3d> rotations() {
  std::vector<Eigen::Matrix3d> out;
  int p[3] = {0, 1, 2};
  do {
    for (int s = 0; s < 8; s++) {
      Eigen::Matrix3d m = Eigen::Matrix3d::Zero();
      for (int i = 0; i < 3; i++) m(i, p[i]) = (s >> i) & 1 ? -1 : 1;
      if (m.determinant() > 0) out.push_back(m);
    }
  } while (std::next_permutation(p, p + 3));
  return out;
}
static const std::vector<Eigen::Matrix3d>& ROT() {
  static const std::vector<Eigen::Matrix3d> r = rotations();
  return r;
}

struct Setup {
  G g;
  int64_t n[3];
  double cs[3];
  Eigen::Isometry3d o;
};

// All operations by point must agree with the index the definition gives.
static void check_point(mc::Run& r, Setup& s, const double u[3]) {
  // u: grid-frame coordinates in units of cells (exact multiples of 1/4)
  int64_t want[3];
  bool in = true;
  double p[3];
  for (int i = 0; i < 3; i++) {
    want[i] = (int64_t)std::floor(u[i]);
    p[i] = u[i] * s.cs[i];
    if (want[i] < 0 || want[i] >= s.n[i]) in = false;
  }
  const Eigen::Vector3d pf(p[0], p[1], p[2]);
  const Eigen::Vector4d pf4(p[0], p[1], p[2], 1);
  const Eigen::Vector3d w = s.o * pf;
  const Eigen::Vector4d w4(w(0), w(1), w(2), 1);
  const GI wi(want[0], want[1], want[2]);
  r.step();
  const G& c = s.g;
  std::string at = mc::cat("grid-frame cell coordinates ", u[0], ",", u[1], ",", u[2]);
  GI a[] = {c.PointInFrameToGridIndex(p[0], p[1], p[2]), c.PointInFrameToGridIndex3d(pf), c.PointInFrameToGridIndex4d(pf4),
            c.LocationToGridIndex(w(0), w(1), w(2)), c.LocationToGridIndex3d(w), c.LocationToGridIndex4d(w4)};
  for (int i = 0; i < 6; i++) {
    if (in) {
      MC_CHECK(a[i] == wi, mc::cat(at, " entry point ", i, " gives ", a[i].x, ",", a[i].y, ",", a[i].z));
    } else {
      MC_CHECK(!c.IndexInBounds(a[i]), mc::cat(at, " is outside but entry point ", i, " gives cell ", a[i].x, ",", a[i].y, ",", a[i].z));
      MC_CHECK(a[i] == wi, mc::cat(at, " entry point ", i, " gives ", a[i].x, ",", a[i].y, ",", a[i].z));
    }
  }
  MC_CHECK(c.LocationInBounds(w(0), w(1), w(2)) == in && c.LocationInBounds3d(w) == in && c.LocationInBounds4d(w4) == in, mc::cat(at, " in bounds"));
  const int v = in ? 1000 + (int)(want[0] * 100 + want[1] * 10 + want[2]) : -7;
  auto g1 = c.GetImmutable(w(0), w(1), w(2));
  auto g2 = c.GetImmutable3d(w);
  auto g3 = c.GetImmutable4d(w4);
  auto g4 = s.g.GetMutable(w(0), w(1), w(2));
  auto g5 = s.g.GetMutable3d(w);
  auto g6 = s.g.GetMutable4d(w4);
  MC_CHECK(g1.second == in && g2.second == in && g3.second == in && g4.second == in && g5.second == in && g6.second == in, mc::cat(at, " found flags"));
  MC_CHECK(g1.first == v && g2.first == v && g3.first == v && g4.first == v && g5.first == v && g6.first == v, mc::cat(at, " values ", g1.first, " ", g2.first, " ", g3.first, " ", g4.first, " ", g5.first, " ", g6.first, " expected ", v));
  // writes by point reach exactly that cell
  const int how = r.choose(3, "writer");
  const int nv = 5;
  bool ok = how == 0 ? s.g.SetValue(w(0), w(1), w(2), nv) : how == 1 ? s.g.SetValue3d(w, nv) : s.g.SetValue4d(w4, nv);
  MC_CHECK(ok == in, mc::cat(at, " write accepted: ", ok));
  for (int64_t x = 0; x < s.n[0]; x++)
    for (int64_t y = 0; y < s.n[1]; y++)
      for (int64_t z = 0; z < s.n[2]; z++) {
        const int e = ok && GI(x, y, z) == wi ? nv : 1000 + (int)(x * 100 + y * 10 + z);
        MC_CHECK(s.g.GetImmutable(x, y, z).first == e, mc::cat(at, " write reached cell ", x, ",", y, ",", z));
      }
}

static void check_cells(mc::Run& r, Setup& s) {
  const G& c = s.g;
  for (int64_t x = -1; x <= s.n[0]; x++)
    for (int64_t y = -1; y <= s.n[1]; y++)
      for (int64_t z = -1; z <= s.n[2]; z++) {
        r.step();
        const Eigen::Vector4d want_f(((double)x + 0.5) * s.cs[0], ((double)y + 0.5) * s.cs[1], ((double)z + 0.5) * s.cs[2], 1);
        const Eigen::Vector4d want_w = s.o * want_f;
        Eigen::Vector4d f1 = c.GridIndexToLocationGridFrame(GI(x, y, z)), f2 = c.GridIndexToLocationGridFrame(x, y, z);
        Eigen::Vector4d w1 = c.GridIndexToLocation(GI(x, y, z)), w2 = c.GridIndexToLocation(x, y, z);
        const double tol = 1e-9 * (1 + want_w.norm());
        MC_CHECK((f1 - want_f).norm() < tol && (f2 - want_f).norm() < tol && (w1 - want_w).norm() < tol && (w2 - want_w).norm() < tol, mc::cat("centre of cell ", x, ",", y, ",", z));
        MC_CHECK(c.LocationToGridIndex4d(w1) == GI(x, y, z) && c.PointInFrameToGridIndex4d(f1) == GI(x, y, z), mc::cat("centre of cell ", x, ",", y, ",", z, " does not map back"));
      }
}

static void fill(Setup& s) {
  for (int64_t x = 0; x < s.n[0]; x++)
    for (int64_t y = 0; y < s.n[1]; y++)
      for (int64_t z = 0; z < s.n[2]; z++) s.g.SetValue(x, y, z, 1000 + (int)(x * 100 + y * 10 + z));
}

static void setup(mc::Run& r, Setup& s, bool few) {
  static const double CS[][3] = {{1, 1, 1}, {0.25, 0.5, 2}, {2, 0.125, 1}, {0.1, 0.3, 0.7}};
  static const double TR[][3] = {{0, 0, 0}, {4, -8, 16}, {-1024.5, 0.25, 3}};
  for (int i = 0; i < 3; i++) s.n[i] = 1 + r.choose(i == 0 ? 3 : 2, "cells");
  const int cs = r.choose(few ? 2 : 4, "cell sizes");
  for (int i = 0; i < 3; i++) s.cs[i] = CS[cs][i];
  const auto& R = ROT();
  const int rot = r.choose((int)R.size(), "rotation"), tr = r.choose(few ? 1 : 3, "translation");
  s.o = Eigen::Isometry3d::Identity();
  s.o.linear() = R[(size_t)rot];
  s.o.translation() = few ? Eigen::Vector3d(4, -8, 16) : Eigen::Vector3d(TR[tr][0], TR[tr][1], TR[tr][2]);
  const bool later = !few && r.flip("origin set later");
  s.g = G(later ? Eigen::Isometry3d::Identity() : s.o, s.cs[0], s.cs[1], s.cs[2], s.n[0], s.n[1], s.n[2], -1, -7);
  if (later) s.g.UpdateOriginTransform(s.o);
  fill(s);
}

MC_SCENARIO(cell_centres, "all shapes up to 3x2x2, 4 cell-size triples, 24 rotations x 3 translations, origin given or updated: every cell centre maps back", 3) {
  Setup s;
  setup(r, s, false);
  check_cells(r, s);
  r.state(mc::cat(s.n[0], s.n[1], s.n[2], s.cs[0], s.o.matrix()));
}

MC_SCENARIO(quarter_lattice, "dyadic cell sizes, 24 rotations: every point at quarter-cell offsets from -1 to n+1 along two axes (the third at -0.25 and 0.5), 3 writers", 3) {
  Setup s;
  setup(r, s, true);
  const int fixed = r.choose(3, "fixed axis");
  double u[3];
  for (int i = 0; i < 3; i++) {
    if (i == fixed) {
      u[i] = r.flip("outside") ? -0.25 : 0.5;
    } else {
      static const double off[] = {-1.0, -0.75, -0.25, 0, 0.25, 0.75};
      const int k = r.choose(6 + 4, "offset");
      u[i] = k < 6 ? off[k] : (double)s.n[i] + (k - 6 - 1) * 0.25 - (k == 6 ? 0.0 : 0.0);
    }
  }
  check_point(r, s, u);
  r.state(mc::cat(s.n[0], s.n[1], s.n[2], s.cs[0], u[0], ",", u[1], ",", u[2]));
}

MC_SCENARIO(centred_grids, "grids centred on their own extent (no origin given): every quarter-cell lattice point around the border, all shapes up to 3x2x2", 3) {
  Setup s;
  for (int i = 0; i < 3; i++) s.n[i] = 1 + r.choose(i == 0 ? 3 : 2, "cells");
  static const double CS[][3] = {{1, 1, 1}, {0.25, 0.5, 2}};
  const int cs = r.choose(2, "cell sizes");
  for (int i = 0; i < 3; i++) s.cs[i] = CS[cs][i];
  s.g = G(s.cs[0], s.cs[1], s.cs[2], s.n[0], s.n[1], s.n[2], -1, -7);
  fill(s);
  s.o = Eigen::Isometry3d::Identity();
  s.o.translation() = Eigen::Vector3d(-0.5 * s.cs[0] * (double)s.n[0], -0.5 * s.cs[1] * (double)s.n[1], -0.5 * s.cs[2] * (double)s.n[2]);
  double u[3];
  for (int i = 0; i < 3; i++) u[i] = -1.0 + 0.25 * r.choose((int)(s.n[i] + 2) * 4 + 1, "offset");
  check_point(r, s, u);
  r.state(mc::cat(s.n[0], s.n[1], s.n[2], s.cs[0], u[0], ",", u[1], ",", u[2]));
}
MC_SCENARIO(next_to_borders, "all shapes up to 3x2x2, 2 dyadic cell-size triples, 24 rotations: points 2^-12, 2^-24 and 2^-36 of a cell (and none) on either side of every border along each axis, 3 writers", 3) {
  Setup s;
  setup(r, s, true);
  const int axis = r.choose(3, "axis");
  double u[3] = {0.5, 0.5, 0.5};
  u[axis] = (double)r.choose((int)s.n[axis] + 1, "border") + r.pick(std::vector<double>{0, std::ldexp(1.0, -12), std::ldexp(1.0, -24), std::ldexp(1.0, -36), -std::ldexp(1.0, -12), -std::ldexp(1.0, -24), -std::ldexp(1.0, -36)});
  check_point(r, s, u);
  r.state(mc::cat(s.n[0], s.n[1], s.n[2], s.cs[0], axis, s.o.matrix(), u[axis] - std::round(u[axis]), ",", std::round(u[axis])));
}
MC_SCENARIO(extents, "grids given by their lengths, each a whole number of cells of one size (of 4) or more or less by half, 2^-12, 2^-24 or 2^-36 of one, axis by axis, with and without an origin, constructed or initialised: the fewest cells that cover the length, and every one of them can be stored in", 3) {
  static const double CS[] = {1, 0.25, 4, 0.125};
  static const double OFF[] = {0, 0.5, -0.5, 1.0 / 4096, -1.0 / 4096, 1.0 / 16777216, -1.0 / 16777216, 1.0 / 68719476736, -1.0 / 68719476736};
  double cs[3], len[3];
  int64_t n[3];
  for (int i = 0; i < 3; i++) {
    cs[i] = CS[r.choose(i ? 2 : 4, "cell size")];
    n[i] = 1 + r.choose(2, "cells");
    // one axis with every offset, the others with the neighbouring kind
    const double o = OFF[r.choose(i == 0 ? 9 : i == 1 ? 5 : 3, "offset")];
    len[i] = ((double)n[i] + o) * cs[i];
    if (o > 0) n[i]++;
  }
  // every axis gets every offset: rotate the roles
  const int turn = r.choose(3, "roles");
  std::rotate(cs, cs + turn, cs + 3);
  std::rotate(len, len + turn, len + 3);
  std::rotate(n, n + turn, n + 3);
  const int how = r.choose(6, "constructor");
  const Eigen::Isometry3d o(Eigen::Translation3d(4, -8, 16));
  G g;
  if (how == 0) g = G(o, cs[0], cs[1], cs[2], len[0], len[1], len[2], 3);
  if (how == 1) g = G(o, cs[0], cs[1], cs[2], len[0], len[1], len[2], 3, -7);
  if (how == 2) g = G(cs[0], cs[1], cs[2], len[0], len[1], len[2], 3);
  if (how == 3) g = G(cs[0], cs[1], cs[2], len[0], len[1], len[2], 3, -7);
  if (how == 4) g.Initialize(o, cs[0], cs[1], cs[2], len[0], len[1], len[2], 3, -7);
  if (how == 5) g.Initialize(cs[0], cs[1], cs[2], len[0], len[1], len[2], 3, -7);
  const std::string at = mc::cat("lengths ", len[0] / cs[0], " ", len[1] / cs[1], " ", len[2] / cs[2], " cells, constructor ", how);
  r.step();
  const int64_t got[3] = {g.GetNumXCells(), g.GetNumYCells(), g.GetNumZCells()};
  const double size[3] = {g.GetXSize(), g.GetYSize(), g.GetZSize()};
  const std::vector<double> cells{g.GetCellSizes()[0], g.GetCellSizes()[1], g.GetCellSizes()[2]};
  for (int i = 0; i < 3; i++) {
    if (got[i] != n[i]) r.fail(mc::cat(at, ": axis ", i, " has ", got[i], " cells"));
    if (size[i] != (double)n[i] * cs[i] || cells[(size_t)i] != cs[i]) r.fail(mc::cat(at, ": axis ", i, " is ", size[i], " long with cells of ", cells[(size_t)i]));
  }
  const Eigen::Vector3d corner = how == 0 || how == 1 || how == 4 ? Eigen::Vector3d(4, -8, 16) : Eigen::Vector3d(-0.5 * size[0], -0.5 * size[1], -0.5 * size[2]);
  for (int64_t x = 0; x < n[0]; x++)
    for (int64_t y = 0; y < n[1]; y++)
      for (int64_t z = 0; z < n[2]; z++) {
        const Eigen::Vector3d p = corner + Eigen::Vector3d(((double)x + 0.5) * cs[0], ((double)y + 0.5) * cs[1], ((double)z + 0.5) * cs[2]);
        const int v = 100 + (int)(x * 16 + y * 4 + z);
        if (!(g.GetImmutable3d(p).first == 3 && g.GetImmutable3d(p).second)) r.fail(at + ": a cell without the default");
        if (!g.SetValue3d(p, v) || g.GetImmutable(x, y, z).first != v) r.fail(mc::cat(at, ": cell ", x, " ", y, " ", z, " not stored in"));
      }
  r.state(mc::cat(at, cs[0], cs[1], cs[2]));
}
