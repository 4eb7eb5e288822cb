// P24: revolute angles, interpolation and averaging.
#include "trap.hpp"

#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/eigen_helpers.hpp>

using namespace EigenHelpers;
static const double PI = M_PI, TAU = 2.0 * M_PI, EPS = 1e-9;
static struct Quiet {
  Quiet() { std::cerr.setstate(std::ios::failbit); }
} quiet;

static std::vector<double> angles(bool more) {
  std::vector<double> a;
  for (int i = -48; i <= 48; i += more ? 1 : 2) a.push_back(i * PI / 12);
  for (double b : {PI, -PI, 2 * PI, -2 * PI, 3 * PI, -3 * PI, 5 * PI}) {
    a.push_back(b);
    a.push_back(std::nextafter(b, 100));
    a.push_back(std::nextafter(b, -100));
    a.push_back(b + 1e-6);
    a.push_back(b - 1e-6);
  }
  for (double b : {0.0, -0.0, 1e-300, -1e-300, 1e-12, -1e-12, 3.0, -3.0, 3.14, -3.14, 100.0, -100.0, 1e4 + 0.5, -1e4 - 0.5, 123456.789, -123456.789}) a.push_back(b);
  if (more)
    for (double b : {1e9, -1e9, 1e15, -1e15, 1e300, -1e300}) a.push_back(b);
  return a;
}
// in [-pi, pi]; exact for doubles
static double wrap(double v) { return std::remainder(v, TAU); }
static double circ(double a, double b) { return std::fabs(wrap(a - b)); }

MC_SCENARIO(wrapping, "154 angles (multiples of pi/12 in +-4pi, ulp and 1e-6 neighbours of odd and even multiples of pi, large values up to 1e300): equivalent angle in (-pi, pi], idempotent, in-range values untouched", 1) {
  const double v = r.pick(angles(true));
  const double w = EnforceContinuousRevoluteBounds(v);
  r.note([&] { return mc::cat("angle ", v, " wraps to ", w); });
  if (!(w > -PI && w <= PI)) r.fail(mc::cat(v, " wraps to ", w, ", outside (-pi, pi]"));
  if (!(std::fabs(wrap(w - wrap(v))) <= EPS)) r.fail(mc::cat(v, " wraps to ", w, ", a different angle"));
  if (EnforceContinuousRevoluteBounds(w) != w) r.fail(mc::cat(v, ": wrapping twice differs"));
  if (v > -PI && v <= PI && w != v) r.fail(mc::cat(v, " in range but changed to ", w));
  r.step();
  r.state(mc::cat(v));
}
MC_SCENARIO(pairs, "all pairs of 100 (thorough more) angles: signed distance carries the first onto the second by at most half a turn, distance is its magnitude and symmetric, addition undoes it, range and bounds agree with the circle for 40 third angles", 2) {
  const auto A = angles(r.thorough());
  const double a = A[(size_t)r.choose((int)A.size(), "first")], b = A[(size_t)r.choose((int)A.size(), "second")];
  const double tol = EPS * (1 + 1e-6 * (std::fabs(a) + std::fabs(b)));
  if (std::fabs(a) > 1e8 || std::fabs(b) > 1e8) throw mc::Prune();
  const std::string at = mc::cat("from ", a, " to ", b);
  const double s = ContinuousRevoluteSignedDistance(a, b);
  r.step();
  const double wa = wrap(a), wb = wrap(b);
  if (!(std::fabs(s) <= PI)) r.fail(mc::cat(at, ": signed distance ", s, " is more than half a turn"));
  if (circ(wa + s, wb) > tol) r.fail(mc::cat(at, ": signed distance ", s, " does not lead there"));
  const double d = ContinuousRevoluteDistance(a, b), e = ContinuousRevoluteDistance(b, a);
  if (std::fabs(d - std::fabs(s)) > tol || std::fabs(d - e) > tol || d < 0) r.fail(mc::cat(at, ": distance ", d, ", back ", e, ", signed ", s));
  if (std::fabs(d - circ(wa, wb)) > tol) r.fail(mc::cat(at, ": distance ", d, ", on the circle ", circ(wa, wb)));
  const double sum = AddContinuousRevoluteValues(a, s);
  if (circ(sum, wb) > tol || !(sum > -PI && sum <= PI)) r.fail(mc::cat(at, ": adding the signed distance ", s, " gives ", sum));
  const double plus = AddContinuousRevoluteValues(a, b);
  if (circ(plus, wa + wb) > tol || !(plus > -PI && plus <= PI)) r.fail(mc::cat(a, " plus ", b, " gives ", plus));
  // counter-clockwise ranges
  const double range = GetContinuousRevoluteRange(a, b);
  if (!(range >= 0 && range <= TAU) || circ(wa + range, wb) > tol) r.fail(mc::cat(at, ": range ", range));
  if (!CheckInContinuousRevoluteBounds(a, b, a) || !CheckInContinuousRevoluteBounds(a, b, b)) r.fail(at + ": an end of the range is outside it");
  for (int i = -20; i < 20; i++) {
    const double v = i * PI / 7.3;
    double off = std::fmod(wrap(v) - wa, TAU);
    if (off < 0) off += TAU;
    if (std::min(off, TAU - off) < 1e-5 || std::fabs(off - range) < 1e-5) continue;
    r.step();
    if (CheckInContinuousRevoluteBounds(a, b, v) != (off < range)) r.fail(mc::cat(at, ": ", v, " in bounds? ", off < range ? "yes" : "no"));
    for (double span : {0.5, 3.0, 3.5, 6.0})
      if (std::fabs(off - span) > 1e-5 && CheckInContinuousRevoluteRange(a, span, v) != (off < span)) r.fail(mc::cat(v, " in range ", span, " from ", a, "? ", off < span ? "yes" : "no"));
  }
  r.state(at);
}
MC_SCENARIO(revolute_interpolation, "all pairs of 100 (thorough more) angles, 13 ratios including 0, 1 and outside [0, 1]: along the shortest rotation, in proportion to the ratio, within [-pi, pi]", 2) {
  const auto A = angles(r.thorough());
  const double a = A[(size_t)r.choose((int)A.size(), "first")], b = A[(size_t)r.choose((int)A.size(), "second")];
  if (std::fabs(a) > 1e8 || std::fabs(b) > 1e8) throw mc::Prune();
  const double tol = 1e-8;
  const double wa = wrap(a), wb = wrap(b), d = wrap(wb - wa);
  for (double t : {-0.5, 0.0, 1e-9, 0.125, 0.25, 0.375, 0.5, 0.625, 0.75, 0.875, 1.0 - 1e-9, 1.0, 1.5}) {
    const double u = std::min(1.0, std::max(0.0, t));
    const double v = InterpolateContinuousRevolute(a, b, t);
    r.step();
    const std::string at = mc::cat("from ", a, " to ", b, " at ", t, ": ", v);
    if (!(v >= -PI && v <= PI)) r.fail(at + " is outside [-pi, pi]");
    const bool half = std::fabs(d) > PI - tol;  // both ways are shortest
    if (circ(v, wa + u * d) > tol && !(half && circ(v, wa - u * d) <= 1e-5)) r.fail(mc::cat(at, ", expected ", wrap(wa + u * d)));
    r.state(at);
  }
}
MC_SCENARIO(linear_interpolation, "scalars, pairs, std vectors and Eigen vectors of up to 3 entries from {-3, 0, 0.5, 1e10}, 11 ratios: ends exact, straight line in between, ratios outside clamped, different sizes refused", 2) {
  const std::vector<double> V{-3, 0, 0.5, 1e10};
  const int n = r.choose(4, "length");
  std::vector<double> a, b;
  for (int i = 0; i < n; i++) a.push_back(r.pick(V)), b.push_back(r.pick(V));
  Eigen::VectorXd ea = Eigen::Map<Eigen::VectorXd>(a.data(), n), eb = Eigen::Map<Eigen::VectorXd>(b.data(), n);
  for (double t : {-1.0, 0.0, 0.125, 0.25, 0.5, 0.625, 0.75, 0.875, 1.0, 1.25, 1e300}) {
    const double u = std::min(1.0, std::max(0.0, t));
    auto near = [&](double x, double p, double q) {
      r.step();
      const double e = p + (q - p) * u, tol = 1e-12 * (std::fabs(p) + std::fabs(q));
      if (!(std::fabs(x - e) <= tol) || (u == 0 && x != p) || (u == 1 && x != q)) r.fail(mc::cat("from ", p, " to ", q, " at ", t, ": ", x));
    };
    const auto v = Interpolate(a, b, t);
    const Eigen::VectorXd e = Interpolate(ea, eb, t);
    if ((int)v.size() != n || e.rows() != n) r.fail("wrong length");
    for (int i = 0; i < n; i++) {
      near(v[(size_t)i], a[(size_t)i], b[(size_t)i]);
      near(e(i), a[(size_t)i], b[(size_t)i]);
      near(Interpolate(a[(size_t)i], b[(size_t)i], t), a[(size_t)i], b[(size_t)i]);
    }
    if (n == 2) {
      const std::pair<double, double> p = Interpolate(std::make_pair(a[0], a[1]), std::make_pair(b[0], b[1]), t);
      near(p.first, a[0], b[0]);
      near(p.second, a[1], b[1]);
      const Eigen::Vector2d f = Interpolate(Eigen::Vector2d(ea), Eigen::Vector2d(eb), t);
      near(f(0), a[0], b[0]);
      near(f(1), a[1], b[1]);
    }
    if (n == 3) {
      const Eigen::Vector3d f = Interpolate(Eigen::Vector3d(ea), Eigen::Vector3d(eb), t);
      for (int i = 0; i < 3; i++) near(f(i), a[(size_t)i], b[(size_t)i]);
    }
    std::vector<double> longer = b;
    longer.push_back(1);
    if (!Interpolate(a, longer, t).empty()) r.fail("vectors of different sizes interpolated");
    bool threw = false;
    try {
      Interpolate(ea, Eigen::VectorXd(Eigen::VectorXd::Zero(n + 1)), t);
    } catch (const std::invalid_argument&) {
      threw = true;
    }
    if (!threw) r.fail("Eigen vectors of different sizes interpolated");
    if (SafetyCheckUnitInterval(t) != u) r.fail(mc::cat("ratio ", t, " clamped to ", SafetyCheckUnitInterval(t)));
  }
  r.state(mc::cat(mc::str(a), mc::str(b)));
}

// rotations: a family of axes and angles
static std::vector<Eigen::Quaterniond> rotations(bool more) {
  std::vector<Eigen::Quaterniond> q;
  for (int ax = 0; ax < 4; ax++) {
    const Eigen::Vector3d axis = ax == 0 ? Eigen::Vector3d(1, 0, 0) : ax == 1 ? Eigen::Vector3d(0, 1, 0) : ax == 2 ? Eigen::Vector3d(0, 0, 1) : Eigen::Vector3d(1, -2, 0.5).normalized();
    for (double an : more ? std::vector<double>{-PI, -2.0, -PI / 2, -0.3, 1e-5, 0.3, 1.0, PI / 2, 2.5, PI} : std::vector<double>{-2.0, -PI / 2, 0.3, 1.0, PI})
      q.emplace_back(Eigen::AngleAxisd(an, axis));
  }
  q.emplace_back(1, 0, 0, 0);
  const size_t n = q.size();
  for (size_t i = 0; i < n; i += 3) q.emplace_back(-q[i].w(), -q[i].x(), -q[i].y(), -q[i].z());  // the other sign of the same rotation
  return q;
}
static double rot_dist(const Eigen::Quaterniond& a, const Eigen::Quaterniond& b) {
  const Eigen::Quaterniond d = a.conjugate() * b;
  return 2 * std::atan2(d.vec().norm(), std::fabs(d.w()));
}
MC_SCENARIO(rotation_interpolation, "all pairs of 28 (thorough 55) rotations in either sign, with translations, 9 ratios: unit norm, ends reached, rotation angle in proportion to the ratio along the shortest rotation", 2) {
  const auto Q = rotations(r.thorough());
  const auto a = r.pick(Q), b = r.pick(Q);
  const Eigen::Vector3d ta(1, -2, 0.5), tb(-3, 0, 4);
  const double full = rot_dist(a, b);
  for (double t : {-1.0, 0.0, 0.125, 0.25, 0.5, 0.75, 0.9, 1.0, 2.0}) {
    const double u = std::min(1.0, std::max(0.0, t));
    const Eigen::Quaterniond q = Interpolate(a, b, t);
    const Eigen::Isometry3d m = Interpolate(Eigen::Isometry3d(Eigen::Translation3d(ta) * a), Eigen::Isometry3d(Eigen::Translation3d(tb) * b), t);
    r.step();
    const std::string at = mc::cat("rotations ", full, " apart at ", t);
    if (std::fabs(q.norm() - 1) > 1e-9) r.fail(mc::cat(at, ": norm ", q.norm()));
    if (std::fabs(rot_dist(a, q) - u * full) > 1e-6 || std::fabs(rot_dist(q, b) - (1 - u) * full) > 1e-6) r.fail(mc::cat(at, ": ", rot_dist(a, q), " from the start, ", rot_dist(q, b), " from the end"));
    const Eigen::Quaterniond mq(m.rotation());
    if (std::fabs(rot_dist(a, mq) - u * full) > 1e-6 || std::fabs(rot_dist(mq, b) - (1 - u) * full) > 1e-6) r.fail(at + ": rotation of the transform");
    if ((m.translation() - (ta + u * (tb - ta))).norm() > 1e-9) r.fail(at + ": translation of the transform");
    r.state(mc::cat(at, mc::str(std::vector<double>{q.w(), q.x(), q.y(), q.z()})));
  }
}

// rotations that are all but the same
MC_SCENARIO(close_rotations, "28 rotations in either sign, a second one 1e-2 .. 1e-7 away about 4 axes, written with either sign, translations equally close: interpolation keeps its proportion to the ratio, averages their weights", 2) {
  const Eigen::Quaterniond a = r.pick(rotations(false));
  const Eigen::Vector3d axis = r.pick(std::vector<Eigen::Vector3d>{{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, Eigen::Vector3d(1, -2, 0.5).normalized()});
  const double apart = r.pick(std::vector<double>{1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7});
  Eigen::Quaterniond b = a * Eigen::Quaterniond(Eigen::AngleAxisd(apart, axis));
  if (r.flip("other sign")) b.coeffs() = -b.coeffs();
  // components of the turn away from a, about the axis
  auto turn = [&](const Eigen::Quaterniond& q) {
    const Eigen::Quaterniond d = a.conjugate() * q;
    return Eigen::Vector3d((d.w() < 0 ? -2.0 : 2.0) * d.vec());
  };
  const double tol = 1e-9 * apart + 5e-15;
  const std::string at = mc::cat("rotations ", apart, " apart");
  const Eigen::Vector3d ta(1, -2, 0.5), tb = ta + apart * Eigen::Vector3d(-3, 0, 4);
  for (double t : {0.0, 0.125, 0.25, 0.5, 0.75, 0.9, 1.0}) {
    const Eigen::Quaterniond q = Interpolate(a, b, t);
    const Eigen::Isometry3d m = Interpolate(Eigen::Isometry3d(Eigen::Translation3d(ta) * a), Eigen::Isometry3d(Eigen::Translation3d(tb) * b), t);
    r.step();
    if (std::fabs(q.norm() - 1) > 1e-9) r.fail(mc::cat(at, ": norm ", q.norm()));
    if (!((turn(q) - 2 * std::sin(t * apart / 2) * axis).norm() <= tol)) r.fail(mc::cat(at, " at ", t, ": turned by ", turn(q).norm()));
    if (!((turn(Eigen::Quaterniond(m.rotation())) - 2 * std::sin(t * apart / 2) * axis).norm() <= tol)) r.fail(mc::cat(at, " at ", t, ": rotation of the transform"));
    if (!((m.translation() - (ta + t * (tb - ta))).norm() <= 1e-15 * 8)) r.fail(mc::cat(at, " at ", t, ": translation of the transform"));
  }
  r.state(mc::cat(at, a.w(), a.x(), a.y(), a.z(), axis.transpose(), b.w() < 0));
}

// --- averages
MC_SCENARIO(averages, "up to 4 (thorough 5) values from {-2, 0, 1, 7.5}, no weights or weights from {0, 1, 2.5, -1}: scalars and vectors average to the weighted mean, whatever the order; standard deviation is the sample deviation", 3) {
  const int n = 1 + r.choose(r.bound(4, 5), "count");
  const std::vector<double> V{-2, 0, 1, 7.5}, W{0, 1, 2.5, -1};
  const bool weighted = n <= 4 && r.flip("weights");
  std::vector<double> v, w;
  double sw = 0, sv = 0, plain = 0;
  for (int i = 0; i < n; i++) {
    v.push_back(r.pick(V));
    plain += v.back();
    if (weighted) w.push_back(n > 3 ? W[(size_t)r.choose(2, "weight") * 2] : r.pick(W));
    const double k = weighted ? std::fabs(w.back()) : 1.0;
    sw += k;
    sv += k * v.back();
  }
  if (sw == 0) throw mc::Prune();
  plain /= n;
  const double mean = sv / sw;
  const std::string at = mc::cat("values ", mc::str(v), " weights ", mc::str(w));
  auto near = [&](double x, double y, const char* what) {
    r.step();
    if (!(std::fabs(x - y) <= 1e-10)) r.fail(mc::cat(at, ": ", what, " ", x, ", not ", y));
  };
  near(AverageStdVectorDouble(v, w), mean, "average");
  near(AverageContinuousRevolute(v, w), mean, "average");
  EigenHelpers::VectorVector3d e3;
  std::vector<Eigen::VectorXd> ex;
  for (double x : v) {
    e3.push_back(Eigen::Vector3d(x, -x, 2 * x + 1));
    Eigen::VectorXd y(2);
    y << x, 3 - x;
    ex.push_back(y);
  }
  const Eigen::Vector3d a3 = AverageEigenVector3d(e3, w), b3 = AverageEigenVector(e3, w);
  near(a3(0), mean, "average of vectors");
  near(a3(1), -mean, "average of vectors");
  near(a3(2), 2 * mean + 1, "average of vectors");
  near((a3 - b3).norm(), 0, "generic average");
  const Eigen::VectorXd ax = AverageEigenVectorXd(ex, w);
  near(ax(0), mean, "average of dynamic vectors");
  near(ax(1), 3 - mean, "average of dynamic vectors");
  if (!weighted) {
    double ss = 0;
    for (double x : v) ss += (x - plain) * (x - plain);
    const double sd = n == 1 ? 0 : std::sqrt(ss / (n - 1));
    near(ComputeStdDevStdVectorDouble(v), sd, "deviation");
    near(ComputeStdDevStdVectorDouble(v, plain), sd, "deviation about the mean");
  }
  r.state(at);
}
// the same averages in other units: the values differ by as little as 1e-12, from each other or from a common base
MC_SCENARIO(scaled_averages, "up to 4 values from {-2, 0, 1, 7.5} times 2^-40, 2^-20 or 2^40, about 0 or about 100, no weights or weights from {1, 2.5, 0} times 2^-30, 1 or 2^30: average and deviation keep the precision of the values", 3) {
  const double unit = std::ldexp(1.0, r.pick(std::vector<int>{-40, -20, 40}));
  const double base = unit < 1 && r.flip("about 100") ? 100 : 0;
  const int n = 1 + r.choose(4, "count");
  const bool weighted = r.flip("weights");
  const double wunit = weighted ? std::ldexp(1.0, r.pick(std::vector<int>{-30, 0, 30})) : 1;
  const std::vector<double> V{-2, 0, 1, 7.5}, W{1, 2.5, 0};
  std::vector<double> v, w;
  long double sw = 0, sv = 0, plain = 0;
  for (int i = 0; i < n; i++) {
    const double x = r.pick(V);
    v.push_back(base + unit * x);
    plain += x;
    if (weighted) w.push_back(wunit * (n > 3 ? W[(size_t)r.choose(2, "weight")] : r.pick(W)));
    const double k = weighted ? w.back() : 1.0;
    sw += k;
    sv += k * (long double)x;
  }
  if (sw == 0) throw mc::Prune();
  plain /= n;
  const double mean = (double)((long double)base + unit * (sv / sw));
  const double tol = 1e-14 * (base + 8 * unit);
  const std::string at = mc::cat("values ", base, " + ", unit, " * ", mc::str(v), " weights ", mc::str(w));
  auto near = [&](double x, double y, const char* what) {
    r.step();
    if (!(std::fabs(x - y) <= tol)) r.fail(mc::cat(at, ": ", what, " off by ", x - y));
  };
  near(AverageStdVectorDouble(v, w), mean, "average");
  near(AverageContinuousRevolute(v, w), mean, "average");
  EigenHelpers::VectorVector3d e3;
  EigenHelpers::VectorVector4d e4;
  std::vector<Eigen::VectorXd> ex;
  for (double x : v) {
    e3.push_back(Eigen::Vector3d(x, -x, 2 * x));
    e4.push_back(Eigen::Vector4d(x, -x, 2 * x, 0));
    Eigen::VectorXd y(2);
    y << x, -x;
    ex.push_back(y);
  }
  const Eigen::Vector3d a3 = AverageEigenVector3d(e3, w);
  const Eigen::Vector4d a4 = AverageEigenVector(e4, w);
  near(a3(0), mean, "average of vectors");
  near(a3(1), -mean, "average of vectors");
  near(a3(2) / 2, mean, "average of vectors");
  near(a4(0), mean, "generic average");
  near(a4(1), -mean, "generic average");
  near(a4(3), 0, "generic average");
  const Eigen::VectorXd ax = AverageEigenVectorXd(ex, w);
  near(ax(0), mean, "average of dynamic vectors");
  near(ax(1), -mean, "average of dynamic vectors");
  if (!weighted) {
    long double ss = 0;
    for (double x : v) {
      const long double d = ((long double)x - base) / unit - plain;
      ss += d * d;
    }
    const double sd = n == 1 ? 0 : (double)(unit * sqrtl(ss / (n - 1)));
    near(ComputeStdDevStdVectorDouble(v), sd, "deviation");
    near(ComputeStdDevStdVectorDouble(v, mean), sd, "deviation about the mean");
  }
  r.state(at);
}
static std::string show(const Eigen::Quaterniond& q) { return mc::cat("(", q.w(), " ", q.x(), " ", q.y(), " ", q.z(), ")"); }
MC_SCENARIO(rotation_averages, "1..3 (thorough 4) out of 28 rotations in either sign, equal or unequal weights and zero weights: a unit quaternion that is the best fit, independent of order and signs, the input itself for identical inputs; transforms likewise", 3) {
  const auto Q = rotations(false);
  const int n = 1 + r.choose(r.bound(3, 4), "count");
  const int weights = n == 1 ? 0 : r.choose(4, "no, unequal, zero or negative weights");
  static const double K[4][4] = {{1, 1, 1, 1}, {1, 2, 0.5, 3}, {0, 1, 2, 0}, {-1, 0.25, -2, 1}};
  EigenHelpers::VectorQuaterniond q;
  EigenHelpers::VectorIsometry3d t;
  std::vector<double> w;
  Eigen::Matrix4d m = Eigen::Matrix4d::Zero();
  Eigen::Vector3d tm = Eigen::Vector3d::Zero();
  double sw = 0;
  std::string at;
  size_t start = 0;
  for (int i = 0; i < n; i++) {
    // beyond the third only a few
    const size_t k = i >= 2 ? (start + (size_t)r.choose(i == 2 ? 9 : 4, "rotation") * 3) % Q.size() : (size_t)r.choose((int)Q.size(), "rotation");
    start = k;
    q.push_back(Q[k]);
    const Eigen::Vector3d tr(i, 2 - 3 * i, 0.5 * i * i);
    t.push_back(Eigen::Isometry3d(Eigen::Translation3d(tr) * Q[k]));
    const double c = std::fabs(K[weights][i]);
    w.push_back(K[weights][i]);
    const Eigen::Vector4d v(Q[k].w(), Q[k].x(), Q[k].y(), Q[k].z());
    m += c * c * v * v.transpose();
    tm += c * tr;
    sw += c;
    at += mc::cat(show(Q[k]), "*", K[weights][i], " ");
  }
  if (weights == 0) w.clear();
  const Eigen::SelfAdjointEigenSolver<Eigen::Matrix4d> es(m);
  if (es.eigenvalues()(3) - es.eigenvalues()(2) < 1e-3) throw mc::Prune();  // no unique best fit
  const Eigen::Vector4d best = es.eigenvectors().col(3);
  const Eigen::Quaterniond expect(best(0), best(1), best(2), best(3));
  const Eigen::Quaterniond a = AverageEigenQuaterniond(q, w);
  r.step();
  if (std::fabs(a.norm() - 1) > 1e-9) r.fail(mc::cat(at, ": average has norm ", a.norm()));
  if (rot_dist(a, expect) > 1e-6) r.fail(mc::cat(at, ": average ", show(a), ", best fit ", show(expect)));
  const Eigen::Isometry3d ta = AverageEigenIsometry3d(t, w);
  if (rot_dist(Eigen::Quaterniond(ta.rotation()), expect) > 1e-6) r.fail(at + ": average transform has another rotation");
  if ((ta.translation() - tm / sw).norm() > 1e-9) r.fail(at + ": average transform has another translation");
  // any order
  EigenHelpers::VectorQuaterniond p(q.rbegin(), q.rend());
  std::vector<double> pw(w.rbegin(), w.rend());
  if (rot_dist(AverageEigenQuaterniond(p, pw), a) > 1e-6) r.fail(at + ": order matters");
  bool same = true;
  for (auto& x : q) same &= rot_dist(x, q[0]) < 1e-12;
  if (same && rot_dist(a, q[0]) > 1e-6) r.fail(at + ": average of identical rotations differs");
  r.state(at);
}
MC_SCENARIO(std_vector_distance, "all pairs of vectors of up to 3 entries from {-1, 0, 2, 0.5}: Euclidean distance, infinite for different sizes; sums along a path", 2) {
  const std::vector<double> V{-1, 0, 2, 0.5};
  std::vector<double> a, b;
  const int n = r.choose(4, "length"), k = r.choose(4, "other length");
  for (int i = 0; i < n; i++) a.push_back(r.pick(V));
  for (int i = 0; i < k; i++) b.push_back(r.pick(V));
  const double d = Distance(a, b), s = SquaredDistance(a, b);
  r.step();
  const std::string at = mc::cat(mc::str(a), " to ", mc::str(b));
  if (n != k) {
    if (!std::isinf(d) || !std::isinf(s) || d < 0 || s < 0) r.fail(at + ": distance of vectors of different sizes");
    r.state(at);
    return;
  }
  double ss = 0;
  for (int i = 0; i < n; i++) ss += (a[(size_t)i] - b[(size_t)i]) * (a[(size_t)i] - b[(size_t)i]);
  if (std::fabs(s - ss) > 1e-12 || std::fabs(d - std::sqrt(ss)) > 1e-12 || Distance(b, a) != d) r.fail(mc::cat(at, ": ", d, ", squared ", s));
  std::vector<std::vector<double>> path{a, b, a, b};
  for (size_t len = 0; len <= 4; len++) {
    const std::vector<std::vector<double>> part(path.begin(), path.begin() + (long)len);
    std::function<double(const std::vector<double>&, const std::vector<double>&)> f = [](const std::vector<double>& x, const std::vector<double>& y) { return Distance(x, y); };
    if (std::fabs(CalculateTotalDistance(part, f) - (len > 1 ? (double)(len - 1) * d : 0)) > 1e-12) r.fail(mc::cat(at, ": path of ", len));
  }
  r.state(at);
}
