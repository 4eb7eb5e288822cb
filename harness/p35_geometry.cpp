// P35: rigid-body, projection and vector helpers.
#include "trap.hpp"

#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/eigen_std_conversions.hpp>

#include <fstream>

using namespace EigenHelpers;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector2d V2;
typedef Eigen::VectorXd VX;
typedef Eigen::MatrixXd MX;
typedef Eigen::Matrix3d M3;
static const double PI = M_PI, NaN = std::numeric_limits<double>::quiet_NaN(), INF = std::numeric_limits<double>::infinity();
static struct Quiet {
  Quiet() { std::cerr.setstate(std::ios::failbit); }
} quiet;

template <typename D>
static std::string S(const Eigen::MatrixBase<D>& m) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (int j = 0; j < m.cols(); j++)
    for (int i = 0; i < m.rows(); i++) o << (i ? " " : (j ? "; " : "")) << m(i, j);
  o << "]";
  return o.str();
}
static bool near(double a, double b, double tol = 1e-9) { return a == b || std::fabs(a - b) <= tol * (1 + std::fabs(a) + std::fabs(b)); }
template <typename A, typename B>
static bool nearm(const Eigen::MatrixBase<A>& a, const Eigen::MatrixBase<B>& b, double tol = 1e-9) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  for (int i = 0; i < a.rows(); i++)
    for (int j = 0; j < a.cols(); j++)
      if (!near(a(i, j), b(i, j), tol)) return false;
  return true;
}
__attribute__((unused)) static V3 lattice3(mc::Run& r, int lo, int hi, const char* l) {
  const int n = hi - lo + 1;
  const int c = r.choose(n * n * n, l);
  return V3(lo + c % n, lo + (c / n) % n, lo + c / (n * n));
}
__attribute__((unused)) static V2 lattice2(mc::Run& r, int lo, int hi, const char* l) {
  const int n = hi - lo + 1;
  const int c = r.choose(n * n, l);
  return V2(lo + c % n, lo + c / n);
}
__attribute__((unused)) static VX vx(const std::vector<double>& v) {
  VX o((long)v.size());
  for (size_t i = 0; i < v.size(); i++) o((long)i) = v[i];
  return o;
}
// reference rotation about a unit axis (Rodrigues, written out)
static M3 rodrigues(const V3& k, double t) {
  const double c = std::cos(t), s = std::sin(t), v = 1 - c;
  M3 m;
  m << c + k(0) * k(0) * v, k(0) * k(1) * v - k(2) * s, k(0) * k(2) * v + k(1) * s, k(1) * k(0) * v + k(2) * s, c + k(1) * k(1) * v,
      k(1) * k(2) * v - k(0) * s, k(2) * k(0) * v - k(1) * s, k(2) * k(1) * v + k(0) * s, c + k(2) * k(2) * v;
  return m;
}
static std::vector<V3> unit_axes() {
  std::vector<V3> a;
  for (int x = -1; x <= 1; x++)
    for (int y = -1; y <= 1; y++)
      for (int z = -1; z <= 1; z++)
        if (x || y || z) a.push_back(V3(x, y, z).normalized());
  return a;
}
static Eigen::Isometry3d iso(const M3& m, const V3& t) {
  Eigen::Isometry3d o = Eigen::Isometry3d::Identity();
  o.linear() = m;
  o.translation() = t;
  return o;
}

#if PART == 1
// ------------------------------------------------------------------------------------------------ comparison, norms
MC_SCENARIO(comparison, "all pairs of 3-D (and 2-D projections of) vectors over {-1,0,0.5,1,NaN}^3 with thresholds 0, +-0.5, 1, 1.5: equality and closeness are elementwise, lists compare element by element and differ when their lengths do", 1) {
  static const std::vector<double> c{-1, 0, 0.5, 1, NaN};
  const int m = r.choose(125, "first"), k = r.choose(125, "second");
  const V3 a(c[(size_t)(m % 5)], c[(size_t)(m / 5 % 5)], c[(size_t)(m / 25)]), b(c[(size_t)(k % 5)], c[(size_t)(k / 5 % 5)], c[(size_t)(k / 25)]);
  r.note([&] { return mc::cat("a=", S(a), " b=", S(b)); });
  bool eq = true;
  for (int i = 0; i < 3; i++) eq = eq && a(i) == b(i);
  if (Equal3d(a, b) != eq) r.fail(mc::cat("Equal3d ", S(a), " ", S(b)));
  for (int pos = 0; pos < 4; pos++)
    for (double e : {0.0, 1.0}) {
      Eigen::Vector4d a4, b4;
      int j = 0;
      for (int i = 0; i < 4; i++) a4(i) = i == pos ? 0.0 : a(j), b4(i) = i == pos ? e : b(j), j += i != pos;
      if (Equal4d(a4, b4) != (eq && e == 0.0)) r.fail(mc::cat("Equal4d ", S(a4), " ", S(b4)));
    }
  for (double t : {0.0, 0.5, -0.5, 1.0, 1.5}) {
    bool cl = true, cl2 = true;
    for (int i = 0; i < 3; i++) {
      const bool x = std::fabs(a(i) - b(i)) <= std::fabs(t);
      cl = cl && x;
      if (i < 2) cl2 = cl2 && x;
    }
    if (CloseEnough(a, b, t) != cl) r.fail(mc::cat("CloseEnough(3-D) ", S(a), " ", S(b), " within ", t, " gives ", !cl));
    if (CloseEnough(V2(a.head<2>()), V2(b.head<2>()), t) != cl2) r.fail(mc::cat("CloseEnough(2-D) ", S(a), " ", S(b), " within ", t));
    const VectorVector3d l1{a, V3(1, 2, 3)}, l2{b, V3(1, 2, 3)}, l3{b}, l4{V3(1, 2, 3), a}, l5{V3(1, 2, 3), b};
    if (CloseEnough(l1, l2, t) != cl || CloseEnough(l4, l5, t) != cl) r.fail(mc::cat("CloseEnough(list) ", S(a), " ", S(b), " within ", t));
    if (CloseEnough(l1, l3, t) || CloseEnough(l3, l1, t)) r.fail("lists of different length compare close");
    r.step();
  }
  if (a == a && b == b) {
    const VectorVector3d l1{V3(1, 2, 3), a}, l2{V3(1, 2, 3), b}, l3{V3(1, 2, 3)};
    for (double p : {1e-12, 0.6}) {
      const bool ap = (a - b).norm() <= p * std::min(a.norm(), b.norm());
      if (IsApprox(l1, l2, p) != ap) r.fail(mc::cat("IsApprox(list) ", S(a), " ", S(b), " precision ", p));
      if (IsApprox(l1, l3, p) || IsApprox(l3, l1, p)) r.fail("lists of different length compare approximately equal");
    }
  }
  r.state(mc::cat(m, ",", k));
}
MC_SCENARIO(norms, "all vectors of length 0..4 over {-2,-0.5,0,1,3} with maximum norms {0.25,1,2.5,5,100}: norm and squared norm, clamping keeps the direction and never exceeds the bound, vectors within it unchanged, normalisation, dot products and weighted norms with weights over {0,0.5,2}", 1) {
  static const std::vector<double> c{-2, -0.5, 0, 1, 3}, w{0, 0.5, 2};
  const int n = r.choose(5, "length");
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(r.pick(c, "element"));
  double s = 0;
  for (double x : v) s += x * x;
  if (!near(SquaredNorm(v), s, 1e-14) || !near(Norm(v), std::sqrt(s), 1e-14)) r.fail(mc::cat("norm of ", mc::str(v)));
  const VX e = vx(v);
  const VX u = SafeNormal(e);
  if (u.size() != n || (s == 0 ? u != e : !near(u.norm(), 1.0) || !nearm(VX(u * std::sqrt(s)), e))) r.fail(mc::cat("SafeNormal of ", mc::str(v), " is ", S(u)));
  r.step();
  for (double m : {0.25, 1.0, 2.5, 5.0, 100.0}) {
    const MX k = ClampNorm(e, m);
    if (k.rows() != n || k.cols() != 1) r.fail("ClampNorm changed the shape");
    if (k.norm() > m * (1 + 1e-12)) r.fail(mc::cat("ClampNorm of ", mc::str(v), " to ", m, " has norm ", k.norm()));
    if (std::sqrt(s) <= m && k != MX(e)) r.fail(mc::cat("ClampNorm of ", mc::str(v), " to ", m, " changed it to ", S(k)));
    if (std::sqrt(s) > m && !nearm(MX(k * std::sqrt(s)), MX(e * m))) r.fail(mc::cat("ClampNorm of ", mc::str(v), " to ", m, " gives ", S(k)));
    r.step();
  }
  // weighted versions against a second vector and weights derived by choice (short vectors only)
  if (n == 2 || (n == 3 && r.thorough())) {
    std::vector<double> o, ws;
    for (int i = 0; i < n; i++) o.push_back(r.pick(c, "other")), ws.push_back(r.pick(w, "weight"));
    double d = 0, n1 = 0, n2 = 0;
    for (int i = 0; i < n; i++) d += v[(size_t)i] * o[(size_t)i] * ws[(size_t)i], n1 += v[(size_t)i] * v[(size_t)i] * ws[(size_t)i], n2 += o[(size_t)i] * o[(size_t)i] * ws[(size_t)i];
    const std::string at = mc::cat(mc::str(v), " . ", mc::str(o), " weights ", mc::str(ws));
    const VX f = vx(o), q = vx(ws);
    if (!near(WeightedDotProduct(e, f, q), d)) r.fail(mc::cat("weighted dot ", at));
    if (!near(WeightedSquaredNorm(e, q), n1) || !near(WeightedNorm(e, q), std::sqrt(n1))) r.fail(mc::cat("weighted norm ", at));
    if (n1 > 0 && n2 > 0) {
      const double cs = std::max(-1.0, std::min(1.0, d / std::sqrt(n1) / std::sqrt(n2)));
      if (!near(WeightedCosineAngleBetweenVectors(e, f, q), cs)) r.fail(mc::cat("weighted cosine ", at));
      const double an = WeightedAngleBetweenVectors(e, f, q);
      if (!(std::fabs(an - std::acos(cs)) < 1e-6)) r.fail(mc::cat("weighted angle ", at, " is ", an));
    } else if (!trap::refused([&] { WeightedCosineAngleBetweenVectors(e, f, q); }))
      r.fail(mc::cat("angle with a zero-norm vector not refused: ", at));
    r.step();
  }
  r.state(mc::str(v));
}

// ------------------------------------------------------------------------------------------------ distances
MC_SCENARIO(distances, "all pairs of vectors over {-2..2}^3 (third points over {-1,0,1}^3): 2-D, 3-D and dynamic distances exact, symmetric, zero exactly on equal vectors, triangle inequality; angle at a vertex against atan2 of cross and dot product", 1) {
  const V3 a = lattice3(r, -2, 2, "a"), b = lattice3(r, -2, 2, "b");
  const std::string at = S(a) + " " + S(b);
  double q = 0, q2 = 0;
  for (int i = 0; i < 3; i++) q += (a(i) - b(i)) * (a(i) - b(i)), q2 += i < 2 ? (a(i) - b(i)) * (a(i) - b(i)) : 0;
  const VX ax = a, bx = b;
  const V2 a2 = a.head<2>(), b2 = b.head<2>();
  if (SquaredDistance(a, b) != q || SquaredDistance(ax, bx) != q || SquaredDistance(a2, b2) != q2) r.fail(mc::cat("squared distance ", at));
  if (!near(Distance(a, b), std::sqrt(q), 1e-15) || !near(Distance(ax, bx), std::sqrt(q), 1e-15) || !near(Distance(a2, b2), std::sqrt(q2), 1e-15)) r.fail(mc::cat("distance ", at));
  if (Distance(a, b) != Distance(b, a) || (Distance(a, b) == 0) != (a == b)) r.fail(mc::cat("distance not symmetric or not zero exactly on equals ", at));
  r.step();
  const V3 c = lattice3(r, -1, 1, "c");
  if (Distance(a, c) > Distance(a, b) + Distance(b, c) + 1e-12) r.fail(mc::cat("triangle inequality ", at, " ", S(c)));
  if (a != b && b != c) {
    const V3 u = a - b, v = c - b;
    const double want = std::atan2(u.cross(v).norm(), u.dot(v)), got = AngleDefinedByPoints(a, b, c);
    if (!(std::fabs(got - want) < 1e-7)) r.fail(mc::cat("angle at ", S(b), " between ", S(a), " and ", S(c), " is ", got, ", expected ", want));
    if (got != AngleDefinedByPoints(c, b, a) && !near(got, AngleDefinedByPoints(c, b, a), 1e-7)) r.fail("angle not symmetric");
    const VX cx = c;
    if (!near(AngleDefinedByPoints(ax, bx, cx), got)) r.fail("angle differs for dynamic vectors");
  }
  const VectorVector3d path{a, b, c};
  const double d1 = std::sqrt(q), d2 = (c - b).norm();
  const std::vector<double> in = CalculateIndividualDistances(path), cu = CalculateCumulativeDistances(path);
  if (in.size() != 3 || in[0] != 0 || !near(in[1], d1) || !near(in[2], d2)) r.fail(mc::cat("individual distances ", mc::str(in)));
  if (cu.size() != 3 || cu[0] != 0 || !near(cu[1], d1) || !near(cu[2], d1 + d2)) r.fail(mc::cat("cumulative distances ", mc::str(cu)));
  if (!near(CalculateTotalDistance(path), d1 + d2)) r.fail("total distance");
  const VectorVector3d one{a}, none;
  if (CalculateTotalDistance(one) != 0 || CalculateTotalDistance(none) != 0 || CalculateIndividualDistances(none).size() || CalculateCumulativeDistances(none).size() ||
      CalculateIndividualDistances(one) != std::vector<double>{0.0} || CalculateCumulativeDistances(one) != std::vector<double>{0.0})
    r.fail("distances of lists of at most one point");
  r.step();
  r.state(at);
}
template <typename SetT, typename PointT>
static void check_set(mc::Run& r, const SetT& set, const PointT& p) {
  const long n = set.cols();
  const MX sq = CalculateSquaredDistanceMatrix(set), di = CalculateDistanceMatrix(set);
  const VX to = CalculateSquaredDistanceToSet(set, p), td = CalculateDistanceToSet(set, p);
  const MX be = SquaredDistancesBetweenPointSets(set, set);
  if (sq.rows() != n || sq.cols() != n || di.rows() != n || di.cols() != n || to.size() != n || td.size() != n || be.rows() != n || be.cols() != n) r.fail("wrong size of a distance matrix");
  double best = INF;
  for (long i = 0; i < n; i++) {
    double d = 0;
    for (long k = 0; k < set.rows(); k++) d += double((set(k, i) - p(k)) * (set(k, i) - p(k)));
    if (to(i) != d || !near(td(i), std::sqrt(d), 1e-14)) r.fail(mc::cat("distance to point ", (int)i, " of the set: ", to(i), " expected ", d));
    best = std::min(best, d);
    for (long j = 0; j < n; j++) {
      double e = 0;
      for (long k = 0; k < set.rows(); k++) e += double((set(k, i) - set(k, j)) * (set(k, i) - set(k, j)));
      if (sq(i, j) != e || be(i, j) != e || !near(di(i, j), std::sqrt(e), 1e-14)) r.fail(mc::cat("distance between points ", (int)i, " and ", (int)j, ": ", sq(i, j), "/", be(i, j), " expected ", e));
    }
  }
  const long c = ClosestPointInSet(set, p);
  if (c < 0 || c >= n || to(c) != best) r.fail(mc::cat("closest point ", (int)c, " is not the closest"));
  r.step();
}
MC_SCENARIO(point_sets, "all sets of 1..3 (thorough 4) points of a 3x3 lattice and all query points of a 4x4 lattice, as fixed, dynamic and mixed-size matrices: distance matrices, distances to a set, between sets of different sizes and the closest point exact", 2) {
  const int n = 1 + r.choose(r.bound(3, 4), "points");
  MX set(2, n);
  for (int i = 0; i < n; i++) set.col(i) = lattice2(r, 0, 2, "point");
  const V2 p = lattice2(r, -1, 2, "query");
  r.note([&] { return mc::cat("set ", S(set), " query ", S(p)); });
  const VX px = p;
  check_set(r, set, px);
  const Eigen::Matrix<double, 2, Eigen::Dynamic> half = set;
  check_set(r, half, p);
  const Eigen::Matrix<double, 3, Eigen::Dynamic> lifted = (Eigen::Matrix<double, 3, Eigen::Dynamic>(3, n) << set, Eigen::RowVectorXd::LinSpaced(n, 0, n - 1)).finished();
  check_set(r, lifted, V3(p(0), p(1), 1));
  if (n == 3) {
    const Eigen::Matrix<double, 2, 3> fix = set;
    check_set(r, fix, p);
  }
  for (int k = 1; k <= n; k++) {
    const MX b = SquaredDistancesBetweenPointSets(set.leftCols(k), set);
    const MX c = SquaredDistancesBetweenPointSets(half, half.leftCols(k));
    if (b.rows() != k || b.cols() != n || c.rows() != n || c.cols() != k) r.fail("wrong size between sets");
    for (int i = 0; i < k; i++)
      for (int j = 0; j < n; j++)
        if (b(i, j) != (set.col(i) - set.col(j)).squaredNorm() || c(j, i) != b(i, j)) r.fail("distance between sets");
  }
  r.state(S(set) + S(p));
}

// ------------------------------------------------------------------------------------------------ projections, lines and planes
MC_SCENARIO(projection, "all pairs of base and projected vectors over {-2..2}^3 (and their 2-D parts): the projection is parallel, the rejection perpendicular, they add up to the vector; projection onto every plane spanned by the first and a second direction over {-1,0,1}^3 lies in the plane and leaves a normal remainder, parallel directions refused", 1) {
  const V3 b = lattice3(r, -2, 2, "base"), v = lattice3(r, -2, 2, "vector");
  const std::string at = S(b) + " <- " + S(v);
  const VX p = VectorProjection(b, v), q = VectorRejection(b, v);
  if (p.size() != 3 || q.size() != 3) r.fail("wrong size");
  if (!nearm(VX(p + q), v)) r.fail(mc::cat("projection and rejection of ", at, " do not add up"));
  if (b.cross(V3(p)).norm() > 1e-9 || std::fabs(b.dot(V3(q))) > 1e-9) r.fail(mc::cat("projection of ", at, " is ", S(p)));
  if (b.isZero(0) && p.norm() != 0) r.fail("projection on the zero vector is not zero");
  const VX p2 = VectorProjection(VX(b.head<2>()), VX(v.head<2>())), q2 = VectorRejection(V2(b.head<2>()), V2(v.head<2>()));
  if (!nearm(VX(p2 + q2), V2(v.head<2>())) || std::fabs(q2.dot(V2(b.head<2>()))) > 1e-9 || std::fabs(p2(0) * b(1) - p2(1) * b(0)) > 1e-9) r.fail(mc::cat("2-D projection ", at));
  r.step();
  const V3 c = lattice3(r, -1, 1, "second direction");
  if (b.isZero(0) || c.isZero(0)) throw mc::Prune();
  const V3 n = b.cross(c);
  V3 out;
  if (n.isZero(0)) {
    if (!trap::refused([&] { out = VectorProjectionToPlane(b, c, v); })) r.fail(mc::cat("plane through parallel directions ", S(b), " ", S(c), " not refused"));
  } else {
    out = VectorProjectionToPlane(b, c, v);
    if (std::fabs(out.dot(n)) > 1e-9 || n.cross(v - out).norm() > 1e-9) r.fail(mc::cat("projection of ", S(v), " to the plane ", S(b), " ", S(c), " is ", S(out)));
  }
  r.step();
  r.state(at + S(c));
}
MC_SCENARIO(lines, "all lines through 18 base points (coordinates up to 1e6) along the 26 lattice directions, points at all lattice displacements over {-2,0,1}^3 scaled by 1, 1e-3, 1e-6 and 1e3: signed displacement along the line and distance to it (tolerance relative to the displacement)", 1) {
  static const std::vector<double> off{0, 1, -7.25, 1000, 1e6, -123456.5};
  const double o = r.pick(off, "offset");
  const int k = r.choose(3, "offset axis");
  const V3 base = k == 0 ? V3(o, 0, 0) : k == 1 ? V3(0, o, -o) : V3(o, o, o);
  const V3 u = r.pick(unit_axes(), "direction");
  static const std::vector<double> sc{1, 1e-3, 1e-6, 1e3}, co{-2, 0, 1};
  const double s = r.pick(sc, "scale");
  const int c = r.choose(27, "displacement");
  const V3 x = base + s * V3(co[(size_t)(c % 3)], co[(size_t)(c / 3 % 3)], co[(size_t)(c / 9)]);
  const V3 d = x - base;  // what is representable
  r.note([&] { return mc::cat("base ", S(base), " direction ", S(u), " point ", S(x)); });
  std::pair<double, double> got;
  const auto oc = trap::run([&] { got = DistanceToLine(base, u, x); });
  if (oc != trap::Returned) r.fail(mc::cat("distance of ", S(x), " to the line through ", S(base), " along ", S(u), " was refused"));
  const double along = u.dot(d), dist = u.cross(d).norm(), tol = 1e-9 * d.norm() + 4e-16 * (std::fabs(o) * 4 + 1);
  if (std::fabs(got.second - along) > tol || std::fabs(got.first - dist) > tol) r.fail(mc::cat("line through ", S(base), " along ", S(u), ", point ", S(x), ": distance ", got.first, " displacement ", got.second, ", expected ", dist, " and ", along));
  r.step();
  r.state(S(base) + S(u) + S(x));
}
MC_SCENARIO(hyperplanes, "all hyperplanes in 2, 3 and 4 dimensions with lattice origins and unit normals and lattice points: signed and absolute distance, projections of points and vectors (idempotent, on the plane, remainder along the normal), dot products", 1) {
  const int dim = 2 + r.choose(3, "dimension");
  VX o(dim), n(dim), p(dim);
  static const std::vector<double> c{-1, 0, 2};
  for (int i = 0; i < dim; i++) n(i) = r.choose(3, "normal") - 1;
  if (n.norm() == 0) throw mc::Prune();
  n.normalize();
  for (int i = 0; i < dim; i++) o(i) = dim == 4 && !r.thorough() ? i - 1.5 : r.pick(c, "origin");
  for (int i = 0; i < dim; i++) p(i) = r.pick(c, "point");
  const Hyperplane h(o, n);
  const std::string at = mc::cat("plane at ", S(o), " normal ", S(n), " point ", S(p));
  const double d = (p - o).dot(n);
  if (h.GetDimensionality() != (size_t)dim || h.GetOrigin() != o || h.GetNormal() != n) r.fail("plane data");
  if (!near(h.GetRawDotProduct(p), d)) r.fail(mc::cat("raw dot product, ", at));
  if (!near(h.GetNormedDotProduct(p), p == o ? 0 : d / (p - o).norm())) r.fail(mc::cat("normed dot product, ", at));
  if (!near(h.GetDistanceToPlane(p), std::fabs(d)) || !near(h.GetSquaredDistanceToPlane(p), d * d)) r.fail(mc::cat("distance ", h.GetDistanceToPlane(p), ", ", at));
  const VX q = h.ProjectPointOntoPlane(p);
  if (!nearm(q, VX(p - d * n))) r.fail(mc::cat("projected point ", S(q), ", ", at));
  if (!nearm(h.ProjectVectorOntoPlane(p), VX(p - p.dot(n) * n)) || !nearm(h.RejectVectorOntoPlane(p), VX(p.dot(n) * n))) r.fail(mc::cat("vector projection, ", at));
  r.step();
  r.state(at);
}
MC_SCENARIO(fit_plane, "all multisets of 3..4 (thorough 5) points of a 3x3x2 lattice (and of 2..4 points of a 4x4 lattice in 2-D) spanning at least a line: the fitted plane passes through the centroid, has a unit normal and no unit normal of a 26-direction-plus-normals family has a smaller sum of squared distances; coplanar points lie on it", 2) {
  const bool flat = r.flip("2-D");
  const int dim = flat ? 2 : 3, lat = flat ? 16 : 18;
  const int n = flat ? 2 + r.choose(3, "points") : 3 + r.choose(r.bound(2, 3), "points");
  std::vector<VX> pts;
  int last = 0;
  VX cen = VX::Zero(dim);
  for (int i = 0; i < n; i++) {
    last += r.choose(lat - last, "point");
    VX p(dim);
    if (flat)
      p << last % 4, last / 4;
    else
      p << last % 3, last / 3 % 3, 3.5 + 2 * (last / 9);
    pts.push_back(p);
    cen += p / n;
  }
  MX sc = MX::Zero(dim, dim);
  for (auto& p : pts) sc += (p - cen) * (p - cen).transpose();
  if (sc.norm() == 0) throw mc::Prune();
  Hyperplane h;
  const auto oc = trap::run([&] { h = FitPlaneToPoints(pts); });
  std::string at;
  for (auto& p : pts) at += S(p);
  if (oc != trap::Returned) r.fail("fitting refused " + at);
  if (!nearm(h.GetOrigin(), cen)) r.fail(mc::cat("plane origin ", S(h.GetOrigin()), " is not the centroid of ", at));
  const VX nn = h.GetNormal();
  if (nn.size() != dim || !near(nn.norm(), 1)) r.fail(mc::cat("normal ", S(nn), " is not a unit vector"));
  const double cost = nn.dot(sc * nn);
  Eigen::SelfAdjointEigenSolver<MX> es(sc);
  if (cost > es.eigenvalues().minCoeff() + 1e-9) r.fail(mc::cat("plane through ", at, " with normal ", S(nn), " has residual ", cost, ", the best has ", es.eigenvalues().minCoeff()));
  for (int i = 0; i < dim; i++)
    for (int j = 0; j < dim; j++) {  // and no lattice direction beats it (independent of the eigen solver)
      VX t = VX::Zero(dim);
      for (int s : {-2, -1, 0, 1, 2}) {
        t.setZero();
        t(i) = 1;
        t(j) += s;
        if (t.norm() > 0 && t.dot(sc * t) / t.squaredNorm() < cost - 1e-9) r.fail(mc::cat("plane through ", at, ": direction ", S(t), " fits better"));
      }
    }
  r.step();
  r.state(at);
}
MC_SCENARIO(cones, "all 124 directions over {-2..2}^3 (normalised) and 6 opening angles: pyramid approximation has four unit outward normals, the axis strictly inside, every point of a 9x9 grid around the axis that satisfies them lies in the cone, and the four corner rays lie on the cone", 1) {
  const V3 d = lattice3(r, -2, 2, "direction");
  if (d.isZero(0)) throw mc::Prune();
  const V3 u = d.normalized();
  static const std::vector<double> mins{0.99, 0.9, std::sqrt(0.5), 0.5, 0.2, 0.01};
  const double m = r.pick(mins, "min dot");
  VectorVector3d n;
  const auto oc = trap::run([&] { n = ConvertConeToPyramid(u, m); });
  const std::string at = mc::cat("cone along ", S(u), " min dot ", m);
  if (oc != trap::Returned) r.fail(at + ": refused");
  if (n.size() != 4) r.fail("not four normals");
  for (auto& k : n) {
    if (!near(k.norm(), 1)) r.fail(mc::cat(at, ": normal ", S(k), " is not a unit vector"));
    if (!(k.dot(u) < -1e-9)) r.fail(mc::cat(at, ": axis not inside face with normal ", S(k)));
  }
  V3 p = u.unitOrthogonal(), q = u.cross(p);
  const double t = std::tan(std::acos(m));
  int inside = 0;
  for (int i = -4; i <= 4; i++)
    for (int j = -4; j <= 4; j++) {
      const V3 x = u + t * (0.25 * i * p + 0.25 * j * q);
      bool in = true;
      for (auto& k : n) in = in && k.dot(x) <= 0;
      if (in) {
        inside++;
        if (u.dot(x.normalized()) < m - 1e-9) r.fail(mc::cat(at, ": ", S(x), " is inside the pyramid but outside the cone"));
      }
    }
  if (inside < 9) r.fail(mc::cat(at, ": pyramid is too small (", inside, " grid points)"));
  for (int i = 0; i < 4; i++) {  // consecutive faces meet in a ray on the cone
    V3 ray = n[(size_t)i].cross(n[(size_t)((i + 1) % 4)]).normalized();
    if (ray.dot(u) < 0) ray = -ray;
    if (!near(ray.dot(u), m, 1e-7)) r.fail(mc::cat(at, ": corner ray ", S(ray), " is not on the cone"));
  }
  r.step();
  r.state(at);
}

// ------------------------------------------------------------------------------------------------ scales
MC_SCENARIO(scaled, "all triples of vectors over {-1,0,2}^3 (second) and {-1,0,1}^3 and lattice bases, each scaled by 2^-40, 2^-20, 2^-9, 1 or 2^40: projections, distances, angles, hyperplanes and normalisation scale along exactly (relative tolerance); norms a hair below and above the clamping bound; planes spanned by directions 1e-1 to 1e-4 apart", 2) {
  static const std::vector<double> sc{std::ldexp(1, -40), std::ldexp(1, -20), std::ldexp(1, -9), 1, std::ldexp(1, 40)}, co{-1, 0, 2};
  const double s = r.pick(sc, "scale"), t = r.thorough() ? r.pick(sc, "other scale") : r.pick(std::vector<double>{1, s, std::ldexp(1, -20)}, "other scale");
  const V3 a = lattice3(r, -1, 1, "a");
  const int bc = r.choose(27, "b");
  const V3 b(co[(size_t)(bc % 3)], co[(size_t)(bc / 3 % 3)], co[(size_t)(bc / 9)]);
  const V3 as = a * s, bt = b * t, bs = b * s;
  const std::string at = mc::cat(S(as), " and ", S(bt));
  r.note([&] { return at; });
  auto rel = [&](const std::string& what, double got, double want, double unit) {
    if (!(std::fabs(got - want) <= 1e-12 * std::fabs(unit))) r.fail(mc::cat(what, " of ", at, " is ", got, ", expected ", want));
    r.step();
  };
  auto relv = [&](const std::string& what, const VX& got, const VX& want, double unit) {
    if (got.size() != want.size() || !((got - want).norm() <= 1e-12 * std::fabs(unit))) r.fail(mc::cat(what, " of ", at, " is ", S(got), ", expected ", S(want)));
    r.step();
  };
  const double an = a.norm(), bn = b.norm();
  if (an > 0) {
    relv("projection on the first", VectorProjection(as, bt), VX(a * (a.dot(b) / (an * an)) * t), bn * t);
    relv("rejection from the first", VectorRejection(as, bt), VX((b - a * (a.dot(b) / (an * an))) * t), bn * t);
    relv("unit vector", SafeNormal(as), VX(a / an), 1);
    for (double h : {-1e-3, -1e-9, 1e-9, 1e-3}) {
      const double m = an * s * (1 + h);
      const MX k = ClampNorm(as, m);
      rel("clamped norm", k.norm(), an * s * (1 + std::min(0.0, h)), an * s);
      if (h > 0 && k != MX(as)) r.fail(mc::cat("ClampNorm of ", S(as), " to ", m, " changed it"));
    }
    if (bn > 0) {
      const VX w = V3(0.5, 2, 1);
      const double cs = WeightedDotProduct(a, b, w) / std::sqrt(WeightedDotProduct(a, a, w) * WeightedDotProduct(b, b, w));
      rel("weighted cosine", WeightedCosineAngleBetweenVectors(as, bt, w), std::max(-1.0, std::min(1.0, cs)), 1);
    }
    // hyperplanes whose points lie close to their origin
    const VX n = V3(a / an), o = V3(3 * s, -s, 0);
    const Hyperplane h(o, n);
    const VX p = o + VX(bs);  // exact: the offsets are small multiples of the scale
    rel("distance to a plane", h.GetDistanceToPlane(p), std::fabs(b.dot(a) / an) * s, bn * s + 1e-300);
    rel("normed dot product", h.GetNormedDotProduct(p), bn == 0 ? 0 : b.dot(a) / an / bn, 1);
    relv("point on a plane", h.ProjectPointOntoPlane(p), VX(V3(3, -1, 0) * s + (b - a * (a.dot(b) / (an * an))) * s), (4 + bn) * s);
  }
  rel("distance", Distance(as, bs), (a - b).norm() * s, (a - b).norm() * s);
  rel("2-D distance", Distance(V2(as.head<2>()), V2(bs.head<2>())), V2(a.head<2>() - b.head<2>()).norm() * s, V2(a.head<2>() - b.head<2>()).norm() * s);
  rel("squared distance", SquaredDistance(VX(as), VX(bs)), (a - b).squaredNorm() * s * s, (a - b).squaredNorm() * s * s);
  const V3 c = V3(0, 1, -1) * s;
  const double d1 = (a - b).norm() * s, d2 = (bs - c).norm();
  const VectorVector3d path{as, bs, c};
  const auto in = CalculateIndividualDistances(path), cu = CalculateCumulativeDistances(path);
  rel("first of the distances", in[1], d1, d1), rel("second of the distances", in[2], d2, d2);
  rel("first cumulative distance", cu[1], d1, d1), rel("second cumulative distance", cu[2], d1 + d2, d1 + d2);
  rel("total distance", CalculateTotalDistance(path), d1 + d2, d1 + d2);
  if (d1 > 0 && d2 > 0) {
    const V3 u = a - b, v = V3(0, 1, -1) - b;
    const double got = AngleDefinedByPoints(as, bs, c), want = std::atan2(u.cross(v).norm(), u.dot(v));
    if (!(std::fabs(got - want) < 1e-7)) r.fail(mc::cat("angle at the second of ", at, " is ", got, ", expected ", want));
  }
  MX set(3, 3);
  set << as, bs, c;
  check_set(r, set, VX(V3(1, 1, 0) * s));
  // a plane through three points close together
  if (V3(a - b).cross(V3(V3(0, 1, -1) - b)).norm() > 0) {
    const std::vector<VX> pts{as, bs, c};
    const Hyperplane f = FitPlaneToPoints(pts);
    relv("centroid", f.GetOrigin(), VX((a + b + V3(0, 1, -1)) * (s / 3)), 4 * s);
    for (auto& p : pts) rel("residual of a plane through three points", f.GetNormal().dot(p - f.GetOrigin()), 0, 4 * s);
  }
  // planes spanned by almost parallel directions
  if (an > 0 && a.cross(b).norm() > 0) {
    const V3 n = a.cross(b).normalized(), v(1, -2, 0.5);
    for (double d : {1e-1, 1e-2, 1e-3, 1e-4}) {
      const V3 k = as + (n.cross(a)) * (s * d);
      V3 out;
      if (trap::run([&] { out = VectorProjectionToPlane(as, k, V3(v * t)); }) != trap::Returned) r.fail(mc::cat("plane spanned by ", S(as), " and ", S(k), " refused"));
      if (!((out - (v - n * n.dot(v)) * t).norm() <= 1e-10 * v.norm() * t)) r.fail(mc::cat("projection of ", S(V3(v * t)), " to the plane of ", S(as), " and ", S(k), " is ", S(out)));
      r.step();
    }
  }
  r.state(at);
}
#endif
#if PART == 2
// ------------------------------------------------------------------------------------------------ linear algebra
MC_SCENARIO(pseudoinverse, "all matrices up to 3x2, 2x3 and 2x2 over {-2,0,1,3} (thorough also 3x3 over {-1,0,2}), with and without flipping: the four Moore-Penrose conditions, rank-deficient and zero matrices included", 1) {
  static const std::vector<std::pair<int, int>> sh{{1, 1}, {1, 2}, {2, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}};
  const auto s = sh[(size_t)r.choose(r.bound(8, 9), "shape")];
  static const std::vector<double> c{-2, 0, 1, 3}, c3{-1, 0, 2};
  MX a(s.first, s.second);
  for (int i = 0; i < s.first; i++)
    for (int j = 0; j < s.second; j++) a(i, j) = r.pick(s.first * s.second > 6 ? c3 : c, "entry");
  for (bool flip : {true, false}) {
    const MX p = Pinv(a, 1e-6, flip);
    const std::string at = mc::cat("pseudo-inverse of ", S(a), flip ? "" : " without flipping", ": ", S(p), " ");
    if (p.rows() != a.cols() || p.cols() != a.rows()) r.fail(at + "has the wrong shape");
    if (!nearm(MX(a * p * a), a)) r.fail(at + "violates A A+ A = A");
    if (!nearm(MX(p * a * p), p)) r.fail(at + "violates A+ A A+ = A+");
    if (!nearm(MX((a * p).transpose()), MX(a * p)) || !nearm(MX((p * a).transpose()), MX(p * a))) r.fail(at + "is not symmetric in product");
    r.step();
  }
  r.state(S(a));
}
MC_SCENARIO(least_squares, "all 3x2 matrices over {-1,0,2} with 3 right-hand sides and 3 weightings, damping threshold 1e-6 and dampings {0.5, 2}: well-conditioned systems give the weighted least-squares optimum, others the damped one; the 2x3 minimum-norm solver likewise on the transposes", 1) {
  static const std::vector<double> c{-1, 0, 2};
  MX a(3, 2);
  for (int i = 0; i < 6; i++) a(i / 2, i % 2) = r.pick(c, "entry");
  static const std::vector<V3> bs{V3(1, 0, 0), V3(1, -2, 3), V3(0, 5, 0.25)}, ws{V3(1, 1, 1), V3(0.5, 2, 1), V3(1, 0, 3)};
  const VX b = r.pick(bs, "rhs"), w = r.pick(ws, "weights");
  const double damp = r.flip("damping") ? 2.0 : 0.5;
  const MX k = a.transpose() * w.asDiagonal() * a;
  const double det = k(0, 0) * k(1, 1) - k(0, 1) * k(1, 0);
  const VX x = WeightedLeastSquaresSolver(a, b, w, 1e-6, damp);
  const std::string at = mc::cat("A=", S(a), " b=", S(b), " w=", S(w), " x=", S(x));
  // gradient of |A x - b|_W^2 (+ damping |x|^2 when singular); determinants here are 0 or at least 1/4
  VX g = a.transpose() * w.asDiagonal() * (a * x - b);
  if (std::fabs(det) < 1e-9) g += damp * x;
  if (x.size() != 2 || !(g.norm() < 1e-7)) r.fail(at + " is not the (damped) weighted least-squares solution");
  r.step();
  const MX u = a.transpose();
  const VX b2 = b.head(2);
  const VX y = UnderdeterminedSolver(u, b2, 1e-6, damp);
  MX k2 = u * u.transpose();
  const double det2 = k2(0, 0) * k2(1, 1) - k2(0, 1) * k2(1, 0);
  if (y.size() != 3) r.fail("wrong size");
  if (std::fabs(det2) > 1e-9) {
    if (!nearm(VX(u * y), b2, 1e-7)) r.fail(mc::cat("underdetermined ", S(u), " b=", S(b2), " x=", S(y), " does not solve the system"));
    // minimum norm: y in the row space, i.e. orthogonal to the null space (cross product of the rows)
    const V3 nul = V3(u.row(0).transpose()).cross(V3(u.row(1).transpose()));
    if (std::fabs(nul.dot(V3(y))) > 1e-7) r.fail(mc::cat("underdetermined ", S(u), " x=", S(y), " is not the minimum-norm solution"));
  } else {
    // damped: minimises |A x - b|^2 + damping |x|^2
    const VX gg = u.transpose() * (u * y - b2) + damp * y;
    if (!(gg.norm() < 1e-7)) r.fail(mc::cat("underdetermined singular ", S(u), " x=", S(y), " is not the damped solution"));
  }
  r.step();
  r.state(at);
}

// ------------------------------------------------------------------------------------------------ rigid motions
static std::vector<double> turn_angles() { return {0, PI / 6, -PI / 4, PI / 2, 2.0, -2.9, 3.1}; }
static M3 pick_rot(mc::Run& r, const char* l) {
  static const std::vector<V3> ax{V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, 1, 0).normalized(), V3(1, -2, 3).normalized(), V3(1, 1, 1).normalized()};
  const int c = r.choose(1 + 6 * 6, l);
  if (c == 0) return M3::Identity();
  return rodrigues(ax[(size_t)((c - 1) % 6)], turn_angles()[(size_t)(1 + (c - 1) / 6)]);
}
MC_SCENARIO(skew, "all pairs over {-2..2}^3: skew matrix times vector is the cross product, unskew inverts it and takes the antisymmetric part; 6-vectors to 4x4 and back", 1) {
  const V3 a = lattice3(r, -2, 2, "a"), b = lattice3(r, -2, 2, "b");
  if (Skew(a) * b != a.cross(b)) r.fail(mc::cat("Skew ", S(a), " ", S(b)));
  if (Unskew(Skew(a)) != a) r.fail(mc::cat("Unskew(Skew(", S(a), ")) = ", S(Unskew(Skew(a)))));
  M3 sym;
  sym << b(0), a(1), b(2), a(1), a(0), 5, b(2), 5, 1;
  if (!nearm(Unskew(Skew(a) + sym), a)) r.fail("Unskew depends on the symmetric part");
  Eigen::Matrix<double, 6, 1> t;
  t << a, b;
  const Eigen::Matrix4d h = TwistHat(t);
  Eigen::Matrix4d want = Eigen::Matrix4d::Zero();
  want << 0, -b(2), b(1), a(0), b(2), 0, -b(0), a(1), -b(1), b(0), 0, a(2), 0, 0, 0, 0;
  if (h != want || TwistUnhat(h) != t) r.fail(mc::cat("twist matrix of ", S(t)));
  r.step();
  r.state(S(a) + S(b));
}
MC_SCENARIO(twists, "all screw motions with 26 axes, rates {0.5,1,2}, translations over {-1,0,2}^3 and 6 durations (total turn under half a turn for the inverse): exponential equals the matrix series, is additive in time, and the twist between two poses regenerates the second from the first", 1) {
  const int ra = r.choose(27, "axis");
  const V3 axis = ra == 0 ? V3(0, 0, 0) : unit_axes()[(size_t)(ra - 1)];
  static const std::vector<double> rates{0.5, 1, 2}, c{-1, 0, 2}, dts{0, 0.25, 1, 1.5, -0.75, 6};
  const double rate = ra == 0 ? 0 : r.pick(rates, "rate");
  const int tc = r.choose(27, "translation");
  Eigen::Matrix<double, 6, 1> tw;
  tw << c[(size_t)(tc % 3)], c[(size_t)(tc / 3 % 3)], c[(size_t)(tc / 9)], axis * rate;
  const double dt = r.pick(dts, "duration");
  const Eigen::Isometry3d g = ExpTwist(tw, dt);
  const std::string at = mc::cat("twist ", S(tw), " for ", dt);
  // reference: scaling and squaring of the truncated series of the 4x4 matrix
  Eigen::Matrix4d x = TwistHat(tw) * (dt / 64), e = Eigen::Matrix4d::Identity(), term = e;
  for (int i = 1; i <= 14; i++) term = term * x / i, e += term;
  for (int i = 0; i < 6; i++) e = e * e;
  if (!nearm(g.matrix(), e, 1e-9)) r.fail(mc::cat(at, " gives ", S(g.matrix()), ", expected ", S(e)));
  if (!nearm((ExpTwist(tw, dt * 0.4) * ExpTwist(tw, dt * 0.6)).matrix(), e, 1e-9)) r.fail(at + ": not additive in time");
  r.step();
  if (std::fabs(dt * rate) < 3.0) {
    const Eigen::Isometry3d s = iso(rodrigues(V3(1, -2, 3).normalized(), 1.1), V3(0.5, -2, 1));
    const Eigen::Isometry3d en = s * g;
    const auto back = TwistBetweenTransforms(s, en);
    const Eigen::Matrix<double, 6, 1> twdt = tw * dt;
    if (!nearm(back, twdt, 1e-7)) r.fail(mc::cat(at, ": twist between the poses is ", S(back)));
    if (!nearm((s * ExpTwist(back, 1.0)).matrix(), en.matrix(), 1e-7)) r.fail(at + ": twist does not lead to the end pose");
    const Eigen::Affine3d sa(s.matrix()), ea(en.matrix());
    if (!nearm(TwistBetweenTransforms(sa, ea), back, 1e-9)) r.fail(at + ": differs for affine transforms");
  }
  r.step();
  r.state(at);
}
MC_SCENARIO(small_twists, "screw motions with 26 axes, rates 1e-2 to 1e-12 and translations of the same kinds, 3 durations: exponential against the series to 1e-7 of the translation, and the twist between two poses back", 1) {
  const V3 axis = r.pick(unit_axes(), "axis");
  static const std::vector<double> rates{1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-8, 1e-12}, c{-1, 0, 2}, dts{0.25, 1, 50};
  const double rate = r.pick(rates, "rate"), ts = r.pick(std::vector<double>{1, 1e-3, 1e-8}, "speed"), dt = r.pick(dts, "duration");
  const int tc = r.choose(27, "translation");
  Eigen::Matrix<double, 6, 1> tw;
  tw << V3(c[(size_t)(tc % 3)], c[(size_t)(tc / 3 % 3)], c[(size_t)(tc / 9)]) * ts, axis * rate;
  const Eigen::Isometry3d g = ExpTwist(tw, dt);
  const std::string at = mc::cat("twist ", S(tw), " for ", dt);
  Eigen::Matrix4d x = TwistHat(tw) * (dt / 64), e = Eigen::Matrix4d::Identity(), term = e;
  for (int i = 1; i <= 14; i++) term = term * x / i, e += term;
  for (int i = 0; i < 6; i++) e = e * e;
  const Eigen::Matrix4d off = g.matrix() - e;
  if (!(off.topLeftCorner<3, 3>().norm() < 1e-12) || !(off.topRightCorner<3, 1>().norm() <= 1e-7 * ts * dt)) r.fail(mc::cat(at, " gives ", S(g.matrix()), ", expected ", S(e)));
  r.step();
  const Eigen::Isometry3d s = iso(rodrigues(V3(1, -2, 3).normalized(), 1.1), V3(0.5, -2, 1));
  const auto back = TwistBetweenTransforms(s, Eigen::Isometry3d(s * g));
  if (!((back - tw * dt).norm() <= 1e-7 * ts * dt + 1e-12)) r.fail(mc::cat(at, ": twist between the poses is ", S(back)));
  r.step();
  r.state(at);
}
MC_SCENARIO(singular_values, "2x2 and 3x2 matrices with singular values from {1e-9, 0.9, 1, 1.1, 100} times the threshold, turned by 6 angles, thresholds 1e-3 and 0.5: the pseudo-inverse drops exactly the singular values up to the threshold; both solvers add damping exactly below it", 1) {
  static const std::vector<double> f{1e-9, 0.9, 0.999, 1.001, 1.1, 100};
  const double th = r.flip("large threshold") ? 0.5 : 1e-3, s1 = th * r.pick(f, "first"), s2 = th * r.pick(f, "second");
  const double al = r.choose(6, "turn") * 0.7;
  Eigen::Matrix2d U, Vt;
  U << std::cos(al), -std::sin(al), std::sin(al), std::cos(al);
  Vt << std::cos(1.3 * al), std::sin(1.3 * al), -std::sin(1.3 * al), std::cos(1.3 * al);
  auto make = [&](double x, double y) { return MX(U * V2(x, y).asDiagonal() * Vt); };
  const MX a = make(s1, s2);
  // U S V^t has the pseudo-inverse V S^+ U^t
  const MX exact = Vt.transpose() * V2(s1 > th ? 1 / s1 : 0, s2 > th ? 1 / s2 : 0).asDiagonal() * U.transpose();
  const std::string at = mc::cat("singular values ", s1, " ", s2, " turn ", al, " threshold ", th);
  const double unit = 1 / th;
  for (bool flip : {true, false}) {
    MX p = Pinv(a, th, flip);
    if (!((p - exact).norm() <= 1e-9 * unit)) r.fail(mc::cat(at, ": pseudo-inverse ", S(p), ", expected ", S(exact)));
    MX tall(3, 2), wide(2, 3);
    tall << a, 0, 0;
    wide << a, V2(0, 0);
    p = Pinv(tall, th, flip);
    if (!((p.leftCols(2) - exact).norm() <= 1e-9 * unit) || !(p.col(2).norm() <= 1e-9 * unit)) r.fail(mc::cat(at, ": pseudo-inverse of the tall matrix ", S(p)));
    p = Pinv(wide, th, flip);
    if (!((p.topRows(2) - exact).norm() <= 1e-9 * unit) || !(p.row(2).norm() <= 1e-9 * unit)) r.fail(mc::cat(at, ": pseudo-inverse of the wide matrix ", S(p)));
    r.step();
  }
  // the solvers look at the singular values of A^t W A and A A^t
  const MX q = make(std::sqrt(s1), std::sqrt(s2));
  const V2 b(1, -2);
  const double damp = std::min(s1, s2) < th ? 0.7 : 0;
  {
    MX A(3, 2);
    A << q, 0, 0;
    const VX x = WeightedLeastSquaresSolver(A, (VX(3) << b, 5).finished(), V3(1, 1, 1), th, 0.7);
    MX k = q.transpose() * q;
    k += damp * MX::Identity(2, 2);
    const VX g = k * x - q.transpose() * b;
    if (!(g.norm() <= 1e-9 * (1 + x.norm()))) r.fail(mc::cat(at, ": least squares gives ", S(x), damp > 0 ? " (damping due)" : " (no damping due)"));
  }
  {
    MX A(2, 3);
    A << q, V2(0, 0);
    const VX x = UnderdeterminedSolver(A, b, th, 0.7);
    MX k = q * q.transpose();
    k += damp * MX::Identity(2, 2);
    const VX y = A.transpose() * k.fullPivLu().solve(b);
    if (!((x - y).norm() <= 1e-7 * (1 + y.norm()))) r.fail(mc::cat(at, ": the underdetermined solver gives ", S(x), ", expected ", S(y)));
  }
  r.step();
  r.state(at);
}
MC_SCENARIO(adjoint, "all pairs of 37 rotations with lattice translations: adjoint of a composition is the product of adjoints, transforming a twist conjugates its matrix; rotating vectors by quaternions forwards and backwards matches the matrices; points mapped elementwise", 1) {
  const M3 ra = pick_rot(r, "first"), rb = pick_rot(r, "second");
  const V3 ta(1, -2, 0.5), tb = lattice3(r, -1, 1, "translation");
  const Eigen::Isometry3d a = iso(ra, ta), b = iso(rb, tb);
  const Eigen::Matrix<double, 6, 6> A = AdjointFromTransform(a), B = AdjointFromTransform(b);
  const Eigen::Isometry3d ab = a * b;
  if (!nearm(AdjointFromTransform(ab), A * B)) r.fail(mc::cat("adjoint of a composition: ", S(a.matrix()), " ", S(b.matrix())));
  Eigen::Matrix<double, 6, 1> t;
  t << 0.5, -1, 2, tb(0) + 1, 2, tb(2) - 0.5;
  const Eigen::Matrix4d conj = a.matrix() * TwistHat(t) * a.inverse().matrix();
  if (!nearm(TwistHat(TransformTwist(a, t)), conj)) r.fail(mc::cat("transformed twist by ", S(a.matrix())));
  const Eigen::Affine3d aa(a.matrix());
  if (!nearm(TransformTwist(aa, t), A * t)) r.fail("transformed twist differs for affine transforms");
  const Eigen::Quaterniond q(ra);
  if (!nearm(RotateVector(q, tb), ra * tb) || !nearm(RotateVectorReverse(q, tb), ra.transpose() * tb)) r.fail(mc::cat("rotating ", S(tb), " by ", S(ra)));
  const Eigen::Quaterniond nq(-q.w(), -q.x(), -q.y(), -q.z());
  if (!nearm(RotateVector(nq, tb), ra * tb)) r.fail("rotation differs for the negated quaternion");
  const VectorVector3d in{tb, V3(3, 1, 2), ta};
  const VectorVector3d out = TransformData(a, in);
  if (out.size() != 3 || TransformData(a, VectorVector3d()).size()) r.fail("TransformData changed the number of points");
  for (size_t i = 0; i < 3; i++)
    if (!nearm(out[i], V3(ra * in[i] + ta))) r.fail(mc::cat("TransformData ", S(in[i])));
  const VectorIsometry3d iin{b, a}, iout = TransformData(a, iin);
  if (iout.size() != 2 || !nearm(iout[0].matrix(), a.matrix() * b.matrix()) || !nearm(iout[1].matrix(), a.matrix() * a.matrix())) r.fail("TransformData on transforms");
  r.step();
  r.state(S(ra) + S(rb) + S(tb));
}
MC_SCENARIO(rotation_distance, "all pairs of 37 rotations times small extra turns {0, 1e-9, 1e-4, 0.5}: quaternion and matrix distance equal the rotation angle between them, symmetric, zero on equals (to rounding), independent of the quaternion sign; transform distance blends with the translation distance", 1) {
  const M3 a = pick_rot(r, "first"), b0 = pick_rot(r, "second");
  static const std::vector<double> ex{0, 1e-9, 1e-4, 0.5};
  const M3 b = b0 * rodrigues(V3(2, -1, 2).normalized(), r.pick(ex, "extra turn"));
  const M3 d = a.transpose() * b;
  const V3 ax(d(2, 1) - d(1, 2), d(0, 2) - d(2, 0), d(1, 0) - d(0, 1));
  const double want = std::atan2(ax.norm(), d.trace() - 1);
  const std::string at = mc::cat("between ", S(a), " and ", S(b));
  const double md = Distance(a, b), me = Distance(b, a);
  if (!(std::fabs(md - want) < 1e-6) || !(std::fabs(me - want) < 1e-6)) r.fail(mc::cat("matrix distance ", md, "/", me, " ", at, ", expected ", want));
  if (!(Distance(a, a) < 1e-6) || !(Distance(b, b) < 1e-6)) r.fail(mc::cat("matrix distance of equal rotations is ", Distance(a, a), "/", Distance(b, b), ": ", at));
  const Eigen::Quaterniond qa(a), qb(b), nb(-qb.w(), -qb.x(), -qb.y(), -qb.z());
  for (double x : {Distance(qa, qb), Distance(qb, qa), Distance(qa, nb)})
    if (!(std::fabs(x - want) < 1e-6)) r.fail(mc::cat("quaternion distance ", x, " ", at, ", expected ", want));
  if (Distance(qa, qa) > 1e-6 || Distance(qb, nb) > 1e-6) r.fail("quaternion distance of equal rotations");
  for (double al : {0.0, 0.25, 0.5, 1.0}) {
    const double td = Distance(iso(a, V3(1, 2, 3)), iso(b, V3(1, -2, 0)), al);
    if (!(std::fabs(td - (al * want + (1 - al) * 5)) < 1e-6)) r.fail(mc::cat("transform distance ", td, " with weight ", al, " ", at));
  }
  r.step();
  r.state(at);
}
MC_SCENARIO(roll_pitch_yaw, "all roll/pitch/yaw triples in steps of 30 degrees over +-180 (pitch +-90 included): intrinsic XYZ and URDF (ZYX) quaternions against products of elementary rotations, angles extracted from a rotation, quaternion or transform rebuild it, transforms from six components and back", 1) {
  const double R = (r.choose(13, "roll") - 6) * PI / 6, P = (r.choose(13, "pitch") - 6) * PI / 6, Y = (r.choose(13, "yaw") - 6) * PI / 6;
  const V3 X(1, 0, 0), Yv(0, 1, 0), Z(0, 0, 1);
  const M3 xyz = rodrigues(X, R) * rodrigues(Yv, P) * rodrigues(Z, Y), zyx = rodrigues(Z, Y) * rodrigues(Yv, P) * rodrigues(X, R);
  const std::string at = mc::cat("rpy ", R, " ", P, " ", Y);
  if (!nearm(QuaternionFromRPY(R, P, Y).toRotationMatrix(), xyz)) r.fail("QuaternionFromRPY " + at);
  if (!nearm(QuaternionFromUrdfRPY(R, P, Y).toRotationMatrix(), zyx)) r.fail("QuaternionFromUrdfRPY " + at);
  auto rebuild = [&](const V3& e) { return M3(rodrigues(X, e(0)) * rodrigues(Yv, e(1)) * rodrigues(Z, e(2))); };
  if (!nearm(rebuild(EulerAnglesFromRotationMatrix(xyz)), xyz, 1e-7)) r.fail(mc::cat("angles of the rotation ", at, " are ", S(EulerAnglesFromRotationMatrix(xyz))));
  if (!nearm(rebuild(EulerAnglesFromQuaternion(Eigen::Quaterniond(xyz))), xyz, 1e-7)) r.fail("angles of the quaternion " + at);
  const V3 t(0.5, -3, 7);
  const Eigen::Isometry3d a = TransformFromRPY(t(0), t(1), t(2), R, P, Y), b = TransformFromRPY(t, V3(R, P, Y));
  VX six(6);
  six << t, R, P, Y;
  const Eigen::Isometry3d c = TransformFromRPY(six);
  const Eigen::Isometry3d want = iso(xyz, t);
  if (!nearm(a.matrix(), want.matrix()) || !nearm(b.matrix(), want.matrix()) || !nearm(c.matrix(), want.matrix())) r.fail("TransformFromRPY " + at);
  if (!nearm(rebuild(EulerAnglesFromIsometry3d(want)), xyz, 1e-7)) r.fail("angles of the transform " + at);
  const VX back = TransformToRPY(want);
  if (back.size() != 6 || !nearm(TransformFromRPY(back).matrix(), want.matrix(), 1e-7)) r.fail(mc::cat("TransformToRPY ", at, " gives ", S(back)));
  VX five(5);
  five.setZero();
  if (!trap::refused([&] { TransformFromRPY(five); })) r.fail("five components not refused");
  r.step();
  r.state(at);
}

// ------------------------------------------------------------------------------------------------ conversions
MC_SCENARIO(conversions, "all lists of up to 6 values over {-1.5,0,1e300} (and ints, floats): conversions between standard and Eigen vectors, lists of 2-/3-vectors and flat vectors, quaternions, are inverse and order preserving; wrong sizes refused", 1) {
  static const std::vector<double> c{-1.5, 0, 1e300};
  const int n = r.choose(7, "length");
  std::vector<double> v;
  for (int i = 0; i < n; i++) v.push_back(n == 6 && !r.thorough() ? r.pick(std::vector<double>{-1.5, 2}) : r.pick(c, "value"));
  const VX e = StdVectorDoubleToEigenVectorXd(v), e2 = StdVectorToEigenVectorX(v);
  if (e.size() != n || e2.size() != n) r.fail("wrong length");
  for (int i = 0; i < n; i++)
    if (e(i) != v[(size_t)i] || e2(i) != v[(size_t)i]) r.fail(mc::cat("conversion of ", mc::str(v)));
  if (EigenVectorXdToStdVectorDouble(e) != v || EigenVectorXToStdVector(e) != v) r.fail(mc::cat("conversion back of ", mc::str(v)));
  if (ConvertTo<std::vector<double>>(e) != v) r.fail(mc::cat("ConvertTo of ", mc::str(v), " has ", ConvertTo<std::vector<double>>(e).size(), " elements or other values"));
  std::vector<int> iv;
  std::vector<float> fv;
  for (double x : v) iv.push_back((int)std::max(-9.0, std::min(9.0, x))), fv.push_back((float)std::min(1e9, x));
  if (EigenVectorXToStdVector(StdVectorToEigenVectorX(iv)) != iv || EigenVectorXToStdVector(StdVectorToEigenVectorX(fv)) != fv) r.fail("integer or float round trip");
  r.step();
  if (n == 3) {
    const V3 p = StdVectorDoubleToEigenVector3d(v);
    if (p(0) != v[0] || p(1) != v[1] || p(2) != v[2] || EigenVector3dToStdVectorDouble(p) != v) r.fail("3-vector conversion");
  } else if (!trap::refused([&] { StdVectorDoubleToEigenVector3d(v); }))
    r.fail("3-vector from a list of another length not refused");
  if (n == 4) {
    const Eigen::Quaterniond q = StdVectorDoubleToEigenQuaterniond(v);
    if (q.x() != v[0] || q.y() != v[1] || q.z() != v[2] || q.w() != v[3] || EigenQuaterniondToStdVectorDouble(q) != v) r.fail("quaternion conversion");
  } else if (!trap::refused([&] { StdVectorDoubleToEigenQuaterniond(v); }))
    r.fail("quaternion from a list of another length not refused");
  if (n % 3 == 0) {
    const auto l = StdVectorXToVectorEigenVector<double, 3>(v);
    const auto l2 = EigenVectorXToVectorEigenVector<double, 3>(e);
    if (l.size() != (size_t)n / 3 || l2.size() != l.size()) r.fail("wrong number of 3-vectors");
    for (int i = 0; i < n; i++)
      if (l[(size_t)i / 3](i % 3) != v[(size_t)i] || l2[(size_t)i / 3](i % 3) != v[(size_t)i]) r.fail("3-vectors out of order");
    if (n && VectorEigenVectorToEigenVectorX(l) != e) r.fail("flattening 3-vectors");
  } else if (!trap::refused([&] { StdVectorXToVectorEigenVector<double, 3>(v); }) || !trap::refused([&] { EigenVectorXToVectorEigenVector<double, 3>(e); }))
    r.fail("a list that does not divide into 3-vectors was not refused");
  if (n == 4 || n == 6) {
    std::vector<VX> dyn{e.head(n / 2), e.tail(n / 2)};
    VX flat;
    if (trap::run([&] { flat = VectorEigenVectorToEigenVectorX(dyn); }) != trap::Returned || flat != e) r.fail(mc::cat("flattening dynamic vectors ", S(dyn[0]), " ", S(dyn[1])));
    if (VectorEigenVectorToEigenVectorX(StdVectorXToVectorEigenVector<double, 2>(v)) != e) r.fail("flattening 2-vectors");
  }
  r.step();
  r.state(mc::str(v));
}
MC_SCENARIO(matrix_file, "all sequences of up to 3 matrices of 1..2 rows and columns over {0, 1/3, -1e-7, 12345.678} appended to one text file: reading the file back gives the matrices in order, to six significant digits, separated by blank lines", 1) {
  static const std::vector<float> c{0.f, 1.f / 3, -1e-7f, 12345.678f};
  const int n = 1 + r.choose(r.bound(2, 3), "matrices");
  char path[] = "/tmp/mcmatXXXXXX";
  close(mkstemp(path));
  struct Rm {
    const char* p;
    ~Rm() { unlink(p); }
  } rm{path};
  std::vector<Eigen::MatrixXf> ms;
  for (int k = 0; k < n; k++) {
    const int sh = r.choose(4, "shape");
    Eigen::MatrixXf m(1 + sh / 2, 1 + sh % 2);
    const int s = r.choose(m.size() == 4 && !r.thorough() ? 8 : (int)std::pow(4, m.size()), "entries");
    for (int i = 0; i < m.size(); i++) m(i) = c[(size_t)((s * (m.size() == 4 && !r.thorough() ? 37 : 1)) >> (2 * i)) % 4];
    ms.push_back(m);
  }
  for (auto& m : ms) mat_to_file(path, m), r.step();
  std::ifstream f(path);
  std::vector<std::vector<std::vector<float>>> got(1);
  std::string line;
  bool blank = true;
  while (std::getline(f, line)) {
    if (line.empty()) {
      if (!blank) got.emplace_back();
      blank = true;
      continue;
    }
    blank = false;
    std::istringstream is(line);
    std::vector<float> row;
    for (std::string tok; is >> tok;) row.push_back(strtof(tok.c_str(), nullptr));
    got.back().push_back(row);
  }
  if (got.back().empty()) got.pop_back();
  if (got.size() != ms.size()) r.fail(mc::cat((int)ms.size(), " matrices written, ", (int)got.size(), " read back"));
  for (size_t k = 0; k < ms.size(); k++) {
    if (got[k].size() != (size_t)ms[k].rows()) r.fail("rows lost");
    for (int i = 0; i < ms[k].rows(); i++) {
      if (got[k][(size_t)i].size() != (size_t)ms[k].cols()) r.fail("columns lost");
      for (int j = 0; j < ms[k].cols(); j++)
        if (!(std::fabs(got[k][(size_t)i][(size_t)j] - ms[k](i, j)) <= 1e-5f * std::fabs(ms[k](i, j)))) r.fail(mc::cat("entry ", ms[k](i, j), " read back as ", got[k][(size_t)i][(size_t)j]));
    }
  }
  r.state(mc::cat(n));
}

// ------------------------------------------------------------------------------------------------ elementwise arithmetic
template <typename T>
static void arithmetic(mc::Run& r, const std::vector<T>& a, const std::vector<T>& b, T s) {
  const std::string at = mc::cat(mc::str(a), " and ", mc::str(b), " scalar ", s);
  auto el = [&](const std::vector<T>& got, const std::string& what, const std::function<T(size_t)>& f) {
    if (got.size() != a.size()) r.fail(mc::cat(what, " of ", at, " has the wrong length"));
    for (size_t i = 0; i < a.size(); i++) {
      const T w = f(i);
      const bool ok = std::is_floating_point<T>::value ? near((double)got[i], (double)w, 1e-6 * (sizeof(T) == 4) + 1e-14) : got[i] == w;
      if (!ok) r.fail(mc::cat(what, " of ", at, ": element ", (int)i, " is ", got[i], ", expected ", w));
    }
  };
  el(Abs(a), "absolute value", [&](size_t i) { return a[i] < 0 ? -a[i] : a[i]; });
  el(Multiply(a, s), "multiplication", [&](size_t i) { return a[i] * s; });
  el(Add(a, s), "sum", [&](size_t i) { return a[i] + s; });
  el(Sub(a, s), "difference", [&](size_t i) { return a[i] - s; });
  if (s != 0) el(Divide(a, s), "division", [&](size_t i) { return a[i] / s; });
  T sum = 0;
  for (T x : a) sum += x;
  if (!near((double)Sum(a), (double)sum, 1e-6)) r.fail(mc::cat("sum of ", at));
  if (a.size() == b.size()) {
    el(Multiply(a, b), "elementwise product", [&](size_t i) { return a[i] * b[i]; });
    const auto ad = Add(a, b);
    el(std::vector<T>(ad.begin(), ad.end()), "elementwise sum", [&](size_t i) { return a[i] + b[i]; });
    el(Sub(a, b), "elementwise difference", [&](size_t i) { return a[i] - b[i]; });
    bool zero = false;
    for (T x : b) zero = zero || x == 0;
    if (!zero) el(Divide(a, b), "elementwise quotient", [&](size_t i) { return a[i] / b[i]; });
  } else if (Multiply(a, b).size() || Add(a, b).size() || Sub(a, b).size() || Divide(a, b).size())
    r.fail(mc::cat("elementwise operation on lists of different length returned something: ", at));
  if (a.size() == 2 && b.size() == 2) {
    typedef std::pair<T, T> PP;
    const PP p(a[0], a[1]), q(b[0], b[1]);
    if (EigenHelpers::Add(p, q) != PP(a[0] + b[0], a[1] + b[1]) || EigenHelpers::Sub(p, q) != PP(a[0] - b[0], a[1] - b[1]) || EigenHelpers::Multiply(p, q) != PP(a[0] * b[0], a[1] * b[1]) ||
        EigenHelpers::Multiply(p, s) != PP(a[0] * s, a[1] * s) || EigenHelpers::Abs(p) != PP(std::abs(a[0]), std::abs(a[1])))
      r.fail(mc::cat("pair arithmetic ", at));
    if (s != 0 && EigenHelpers::Divide(p, s) != PP(a[0] / s, a[1] / s)) r.fail(mc::cat("pair division ", at));
    if (b[0] != 0 && b[1] != 0 && EigenHelpers::Divide(p, q) != PP(a[0] / b[0], a[1] / b[1])) r.fail(mc::cat("pair quotient ", at));
  }
  r.step();
}
MC_SCENARIO(elementwise, "all pairs of lists of up to 2 (thorough 3) elements and scalars over small value sets of double, float, int and 64-bit integers (beyond 2^53 too): absolute value, sum, difference, product, quotient and total elementwise exact for integers; lists of different length give nothing", 2) {
  const int type = r.choose(4, "type");
  const int na = r.choose(r.bound(3, 4), "length a"), nb = r.choose(r.bound(3, 4), "length b");
  static const std::vector<double> d{-2.5, 0, 0.1, 3};
  static const std::vector<int> iv{-49, 0, 3, 49};
  static const std::vector<int64_t> lv{-7, 0, 49, 9007199254740993ll};
  std::vector<int> ia, ib;
  for (int i = 0; i < na; i++) ia.push_back(r.choose(4, "a"));
  for (int i = 0; i < nb; i++) ib.push_back(r.choose(4, "b"));
  const size_t s = (size_t)r.choose(4, "scalar");
  if (type == 0 || type == 1) {
    std::vector<double> a, b;
    std::vector<float> fa, fb;
    for (int i : ia) a.push_back(d[(size_t)i]), fa.push_back((float)d[(size_t)i]);
    for (int i : ib) b.push_back(d[(size_t)i]), fb.push_back((float)d[(size_t)i]);
    if (type == 0)
      arithmetic<double>(r, a, b, d[s]);
    else
      arithmetic<float>(r, fa, fb, (float)d[s]);
  } else if (type == 2) {
    std::vector<int> a, b;
    for (int i : ia) a.push_back(iv[(size_t)i]);
    for (int i : ib) b.push_back(iv[(size_t)i]);
    arithmetic<int>(r, a, b, iv[s]);
  } else {
    std::vector<int64_t> a, b;
    for (int i : ia) a.push_back(lv[(size_t)i]);
    for (int i : ib) b.push_back(i == 3 ? 3 : lv[(size_t)i]);
    arithmetic<int64_t>(r, a, b, s == 3 ? 3 : lv[s]);
  }
  r.state(mc::cat(type, mc::str(ia), mc::str(ib), (int)s));
}
MC_SCENARIO(long_lists, "lists of every length from 3 to 40 (thorough 130) of double, float, int and 64-bit integers, a zero or an extreme value at every position, scalars 3 and -1: the same element by element, and the total", 2) {
  const int type = r.choose(4, "type"), n = 3 + r.choose(r.bound(38, 128), "length");
  const double s = r.flip("scalar") ? -1 : 3;
  const int same = r.choose(3, "other list");  // as long, one shorter, one longer
  for (int at = 0; at < n; at++)
    for (double special : {0.0, -1000.0}) {
      std::vector<int64_t> a, b;
      for (int i = 0; i < n; i++) a.push_back(i == at ? (int64_t)special : (i * 7) % 13 - 4);
      for (int i = 0; i < n + (same == 1 ? -1 : same == 2); i++) b.push_back(1 + (i * 5) % 11);
      if (type == 0)
        arithmetic<double>(r, std::vector<double>(a.begin(), a.end()), std::vector<double>(b.begin(), b.end()), s);
      else if (type == 1)
        arithmetic<float>(r, std::vector<float>(a.begin(), a.end()), std::vector<float>(b.begin(), b.end()), (float)s);
      else if (type == 2)
        arithmetic<int>(r, std::vector<int>(a.begin(), a.end()), std::vector<int>(b.begin(), b.end()), (int)s);
      else
        arithmetic<int64_t>(r, a, b, (int64_t)s);
    }
  r.state(mc::cat(type, n, s, same));
}
#endif
