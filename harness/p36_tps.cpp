// P36: thin plate splines.
#include "trap.hpp"

#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/thin_plate_spline.hpp>

using arc_utilities::ThinPlateSpline;
typedef Eigen::MatrixXd MX;
typedef long double LD;

static std::string S(const MX& m) {
  std::ostringstream o;
  o.precision(12);
  o << "[";
  for (int j = 0; j < m.cols(); j++)
    for (int i = 0; i < m.rows(); i++) o << (i ? " " : (j ? "; " : "")) << m(i, j);
  o << "]";
  return o.str();
}
static bool near(double a, double b, double tol) { return std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
static bool nearm(const MX& a, const MX& b, double tol = 1e-7) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++)
      if (!near(a(i, j), b(i, j), tol)) return false;
  return true;
}
// r^2 log r in the plane, r in space (any multiple gives the same spline)
static LD kernel(int dim, LD r) { return r == 0 ? 0 : dim == 2 ? r * r * std::log(r) : r; }
// Reference: solves the spline equations in long double by Gauss-Jordan elimination with full row search.
static MX reference(const MX& from, const MX& to, const MX& at, bool* ok) {
  const int d = (int)from.rows(), n = (int)from.cols(), m = n + d + 1;
  std::vector<std::vector<LD>> a((size_t)m, std::vector<LD>((size_t)(m + d), 0));
  for (int i = 0; i < n; i++) {
    for (int j = 0; j < n; j++) {
      LD q = 0;
      for (int k = 0; k < d; k++) q += ((LD)from(k, i) - from(k, j)) * ((LD)from(k, i) - from(k, j));
      a[(size_t)i][(size_t)j] = kernel(d, std::sqrt(q));
    }
    for (int k = 0; k <= d; k++) a[(size_t)i][(size_t)(n + k)] = a[(size_t)(n + k)][(size_t)i] = k == d ? 1 : from(k, i);
    for (int k = 0; k < d; k++) a[(size_t)i][(size_t)(m + k)] = to(k, i);
  }
  *ok = true;
  for (int c = 0; c < m; c++) {
    int p = c;
    for (int i = c; i < m; i++)
      if (std::fabs(a[(size_t)i][(size_t)c]) > std::fabs(a[(size_t)p][(size_t)c])) p = i;
    if (std::fabs(a[(size_t)p][(size_t)c]) < 1e-24L) {
      *ok = false;
      return MX();
    }
    std::swap(a[(size_t)p], a[(size_t)c]);
    for (int i = 0; i < m; i++)
      if (i != c) {
        const LD f = a[(size_t)i][(size_t)c] / a[(size_t)c][(size_t)c];
        for (int j = c; j < m + d; j++) a[(size_t)i][(size_t)j] -= f * a[(size_t)c][(size_t)j];
      }
  }
  MX out(d, at.cols());
  for (int q = 0; q < at.cols(); q++)
    for (int k = 0; k < d; k++) {
      LD v = 0;
      for (int i = 0; i < m; i++) {
        LD b = 1;
        if (i < n) {
          LD s = 0;
          for (int l = 0; l < d; l++) s += ((LD)from(l, i) - at(l, q)) * ((LD)from(l, i) - at(l, q));
          b = kernel(d, std::sqrt(s));
        } else if (i < n + d)
          b = at(i - n, q);
        v += b * a[(size_t)i][(size_t)(m + k)] / a[(size_t)i][(size_t)i];
      }
      out(k, q) = (double)v;
    }
  return out;
}
static int rank_affine(const MX& p) {
  MX h(p.rows() + 1, p.cols());
  h << p, Eigen::RowVectorXd::Ones(p.cols());
  Eigen::FullPivLU<MX> lu(h);
  lu.setThreshold(1e-9);
  return (int)lu.rank();
}
static MX probes(int d) {
  MX p(d, 6);
  if (d == 2)
    p << 0.5, -1, 3.5, 1, 0.25, 10, 0.25, 2, -0.5, 1, 1.75, -7;
  else
    p << 0.5, -1, 3.5, 1, 0.25, 10, 0.25, 2, -0.5, 1, 1.75, -7, 0.1, 1, 2, 0.5, -0.75, 3;
  return p;
}
// target families
static MX target(mc::Run& r, const MX& from, bool* affine) {
  const int d = (int)from.rows(), n = (int)from.cols();
  const int k = r.choose(6, "targets");
  MX to = from;
  *affine = k < 3;
  MX A = MX::Identity(d, d);
  Eigen::VectorXd b = Eigen::VectorXd::Zero(d);
  if (k == 1) A(0, d - 1) = 0.75, A(1, 0) = -2, b(0) = 3, b(d - 1) = -1.5;
  if (k == 2) A.setZero(), b.setConstant(4);
  to = (A * from).colwise() + b;
  if (k == 3) to.col(0).array() += 1;            // one bump
  if (k == 4) to.col(n - 1)(d - 1) -= 2.5;       // another
  if (k == 5)
    for (int i = 0; i < n; i++) to.col(i).setConstant(i % 2 ? i : -2 * i);  // fold: scrambled
  return to;
}
template <int D>
static void check(mc::Run& r, const MX& from, const MX& to, bool affine) {
  const std::string at = mc::cat("spline from ", S(from), " to ", S(to));
  r.note([&] { return at; });
  ThinPlateSpline<D> s(from, to);
  const MX self = s.interpolate(from);
  if (!nearm(self, to)) r.fail(mc::cat(at, " maps its control points to ", S(self)));
  r.step();
  const MX p = probes(D);
  const MX got = s.interpolate(p);
  bool ok;
  const MX want = reference(from, to, p, &ok);
  if (!ok) r.fail("harness: degenerate set in the non-degenerate family");
  if (!nearm(got, want)) r.fail(mc::cat(at, " maps ", S(p), " to ", S(got), ", expected ", S(want)));
  if (affine) {  // reproduce the affine map everywhere (solved from the points themselves)
    MX h(D + 1, from.cols()), hp(D + 1, p.cols());
    h << from, Eigen::RowVectorXd::Ones(from.cols());
    hp << p, Eigen::RowVectorXd::Ones(p.cols());
    const MX map = h.transpose().fullPivHouseholderQr().solve(to.transpose()).transpose();
    if (!nearm(got, map * hp)) r.fail(mc::cat(at, " does not reproduce the affine map: ", S(p), " to ", S(got)));
  }
  r.step();
  // one point at a time, and other matrix types
  for (int i = 0; i < p.cols(); i++) {
    const Eigen::Matrix<double, D, 1> one = p.col(i);
    if (!nearm(s.interpolate(one), got.col(i), 1e-12)) r.fail(mc::cat(at, ": interpolating points one by one differs"));
  }
  const Eigen::Matrix<double, D, Eigen::Dynamic> fp = p, ff = from, ft = to;
  ThinPlateSpline<D> s2(ff, ft);
  if (!nearm(s2.interpolate(fp), got, 1e-12)) r.fail(at + ": fixed-size matrices give another spline");
  r.step();
  // every cyclic rotation and the reversal of the control points
  for (int k = 0; k <= from.cols(); k++) {
    MX f = from, t = to;
    const long n = from.cols();
    for (long i = 0; i < n; i++) {
      const long j = k == n ? n - 1 - i : (i + k) % n;
      f.col(i) = from.col(j);
      t.col(i) = to.col(j);
    }
    ThinPlateSpline<D> s3(f, t);
    if (!nearm(s3.interpolate(p), got)) r.fail(mc::cat(at, ": reordering the control points (", k, ") changes the spline"));
  }
  r.step();
}
// every n-subset of a lattice
static MX subset(mc::Run& r, const MX& lattice, int n) {
  MX o(lattice.rows(), n);
  int last = 0;
  for (int i = 0; i < n; i++) {
    const int c = last + r.choose((int)lattice.cols() - (n - 1 - i) - last, "point");
    o.col(i) = lattice.col(c);
    last = c + 1;
  }
  return o;
}
static MX lattice2() {
  MX l(2, 10);
  for (int i = 0; i < 9; i++) l.col(i) << i % 3, i / 3;
  l.col(9) << 20.5, -3;
  return l;
}
static MX lattice3() {
  MX l(3, 10);
  for (int i = 0; i < 8; i++) l.col(i) << i % 2, i / 2 % 2, i / 4;
  l.col(8) << 0.5, 3, -1;
  l.col(9) << -20, 0.25, 4;
  return l;
}
MC_SCENARIO(plane, "every subset of 3 to 7 points (thorough up to 9) of a 3x3 lattice plus a far point, not collinear, with 3 affine and 3 non-affine targets: control points hit, values at 6 probe points against an independent long-double solution, affine maps reproduced, every cyclic reordering and the reversal, fixed and dynamic types", 2) {
  const int n = 3 + r.choose(r.bound(5, 7), "number of points");
  const MX from = subset(r, lattice2(), n);
  if (rank_affine(from) < 3) throw mc::Prune();
  bool affine;
  const MX to = target(r, from, &affine);
  check<2>(r, from, to, affine);
  r.state(S(from) + S(to));
}
MC_SCENARIO(space, "every subset of 4 to 7 points (thorough up to 9) of the unit cube corners plus two outer points, not coplanar, with the same targets and checks in 3-D", 2) {
  const int n = 4 + r.choose(r.bound(4, 6), "number of points");
  const MX from = subset(r, lattice3(), n);
  if (rank_affine(from) < 4) throw mc::Prune();
  bool affine;
  const MX to = target(r, from, &affine);
  check<3>(r, from, to, affine);
  r.state(S(from) + S(to));
}
// other units, other origins, and points next to control points
template <int D>
static void zoom(mc::Run& r, const MX& unit_from, const MX& unit_to) {
  const double scale = r.pick(std::vector<double>{1, 1.0 / 64, 1.0 / 1024, 256, 8192});
  const double origin = r.pick(std::vector<double>{0, -37});
  const double height = r.pick(std::vector<double>{1, 1e-6, 1e6});  // targets in another unit still
  const MX from = (unit_from * scale).array() + origin, to = unit_to * height;
  const std::string at = mc::cat("spline from ", origin, " + ", scale, " * ", S(unit_from), " to ", height, " * ", S(unit_to));
  MX p(D, 6 + 4 * from.cols());
  p.leftCols(6) = (probes(D) * scale).array() + origin;
  const double off[4] = {0.03, 1e-3, 1e-4, 1e-5};
  for (int i = 0; i < from.cols(); i++)
    for (int k = 0; k < 4; k++) {
      p.col(6 + 4 * i + k) = from.col(i);
      p((i + k) % D, 6 + 4 * i + k) += off[k] * scale;
      p((i + k + 1) % D, 6 + 4 * i + k) -= 0.5 * off[k] * scale;
    }
  ThinPlateSpline<D> s(from, to);
  bool ok;
  const MX got = s.interpolate(p), self = s.interpolate(from), want = reference(from, to, p, &ok);
  if (!ok) r.fail("harness: degenerate set in the non-degenerate family");
  r.step();
  const double size = height * (1 + unit_to.cwiseAbs().maxCoeff());
  const double tol = scale < 1 && origin != 0 ? 1e-8 : 1e-9;
  const double worst = ((got - want).cwiseAbs().maxCoeff()) / size, hit = (self - to).cwiseAbs().maxCoeff() / size;
  if (!(hit <= tol)) r.fail(mc::cat(at, ": control points missed by ", hit, " of the size of the targets"));
  if (!(worst <= tol)) r.fail(mc::cat(at, ": off by ", worst, " of the size of the targets"));
  r.state(at);
}
MC_SCENARIO(zoomed_plane, "every subset of 3 to 6 of 7 lattice points, not collinear, 6 targets, in units 1, 1/64, 1/1024, 256 and 8192 about two origins with targets in units 1, 1e-6 and 1e6: control points hit and values at 6 probe points and four points 3e-2 .. 1e-5 from each control point against an independent long-double solution", 2) {
  const int n = 3 + r.choose(r.bound(4, 5), "number of points");
  MX l = lattice2();
  l.col(4) = l.col(9), l.col(7) << 1.5, 0.5;
  const MX from = subset(r, l.leftCols(r.bound(6, 8)), n);
  if (rank_affine(from) < 3) throw mc::Prune();
  bool affine;
  const MX to = target(r, from, &affine);
  zoom<2>(r, from, to);
}
MC_SCENARIO(zoomed_space, "every subset of 4 to 6 of 7 points in space, not coplanar, with the same targets, units and probes", 2) {
  const int n = 4 + r.choose(3, "number of points");
  MX l = lattice3();
  l.col(4) = l.col(9), l.col(6) = l.col(8);
  const MX from = subset(r, l.leftCols(r.bound(7, 8)), n);
  if (rank_affine(from) < 4) throw mc::Prune();
  bool affine;
  const MX to = target(r, from, &affine);
  zoom<3>(r, from, to);
}
MC_SCENARIO(degenerate, "every set of 1 to 5 distinct lattice points that is collinear (2-D) or coplanar (3-D, including all sets too small to span space), same targets, in units 1, 0.1 about 0.3, and 1000: control points are still mapped to their targets", 2) {
  bool affine;
  const int unit = r.choose(3, "unit");
  const double scale = unit == 0 ? 1 : unit == 1 ? 0.1 : 1000, origin = unit == 1 ? 0.3 : 0;
  if (r.flip("3-D")) {
    const MX plain = subset(r, lattice3(), 1 + r.choose(5, "number of points"));
    if (rank_affine(plain) == 4) throw mc::Prune();
    const MX to = target(r, plain, &affine), from = (plain * scale).array() + origin;
    ThinPlateSpline<3> s(from, to);
    const MX got = s.interpolate(from);
    if (!nearm(got, to, 1e-6)) r.fail(mc::cat("spline from ", S(from), " to ", S(to), " maps its control points to ", S(got)));
    r.state(S(from) + S(to));
  } else {
    const MX plain = subset(r, lattice2(), 1 + r.choose(5, "number of points"));
    if (rank_affine(plain) == 3) throw mc::Prune();
    const MX to = target(r, plain, &affine), from = (plain * scale).array() + origin;
    ThinPlateSpline<2> s(from, to);
    const MX got = s.interpolate(from);
    if (!nearm(got, to, 1e-6)) r.fail(mc::cat("spline from ", S(from), " to ", S(to), " maps its control points to ", S(got)));
    r.state(S(from) + S(to));
  }
  r.step();
}
MC_SCENARIO(histories, "all histories of up to 5 (thorough 6) operations over set template (3 sets of different sizes), set target (3), solve, interpolate and copy: every answer equals that of a fresh spline on the current points; solving or interpolating without points or with unequal numbers refused, and possible again once they match", 2) {
  MX F[3] = {MX(2, 4), MX(2, 4), MX(2, 5)}, T[3] = {MX(2, 4), MX(2, 5), MX(2, 4)};
  F[0] << 0, 1, 0, 1, 0, 0, 1, 1;
  F[1] << 0, 2, 0, 3, 0, 1, 2, 5;
  F[2] << 0, 1, 0, 1, 0.5, 0, 0, 1, 1, 3;
  T[0] << 0, 1, 0, 2, 1, 0, 1, 2;
  T[1] << 3, 1, 4, 1, 5, 9, 2, 6, 5, 3;
  T[2] << 1, 1, -1, 1, 0, 2, 0, 0;
  const MX p = probes(2);
  ThinPlateSpline<2> s;
  int f = -1, t = -1;
  const int depth = r.bound(5, 6);
  for (int i = 0; i < depth; i++) {
    const int op = r.choose(9, "operation");
    const bool valid = f >= 0 && t >= 0 && F[f].cols() == T[t].cols();
    r.step();
    if (op < 3)
      s.setTemplatePoints(F[f = op]);
    else if (op < 6)
      s.setTargetPoints(T[t = op - 3]);
    else if (op == 6) {
      if (trap::refused([&] { s.solveForCoeffs(); }) == valid) r.fail(mc::cat("solving with template ", f, " and target ", t, valid ? " refused" : " not refused"));
    } else if (op == 7) {
      MX got;
      const bool ref = trap::refused([&] { got = s.interpolate(p); });
      if (ref == valid) r.fail(mc::cat("interpolating with template ", f, " and target ", t, valid ? " refused" : " not refused"));
      if (valid) {
        bool ok;
        if (!nearm(got, reference(F[f], T[t], p, &ok))) r.fail(mc::cat("template ", f, " target ", t, ": history-dependent answer ", S(got)));
      }
    } else {
      ThinPlateSpline<2> c = s;
      s.setTemplatePoints(MX(F[2] * 3));
      s = c;
    }
    r.state(mc::cat(f, ",", t, ",", op));  // recorded only: the spline may remember more than this
  }
}
