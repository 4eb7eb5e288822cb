// P40: ROS message conversions, builders, rigid transforms of lists, and message serialization.
#include "trap.hpp"

#include <arc_utilities/eigen_helpers_conversions.hpp>
#include <arc_utilities/eigen_ros_conversions.hpp>
#include <arc_utilities/eigen_transforms.hpp>
#include <arc_utilities/geometry_msgs_builders.hpp>
#include <arc_utilities/serialization_ros.hpp>
#include <arc_utilities/shape_msgs_builders.hpp>

namespace ehc = EigenHelpersConversions;
namespace gm = geometry_msgs;
typedef Eigen::Vector3d V3;
typedef Eigen::Vector4d V4;
typedef Eigen::Vector3f V3f;
typedef Eigen::Matrix3d M3;
typedef Eigen::Isometry3d Iso;
typedef Eigen::Affine3d Aff;
typedef Eigen::Quaterniond Q;
typedef Eigen::Quaternionf Qf;
static const double INF = std::numeric_limits<double>::infinity(), NaN = std::numeric_limits<double>::quiet_NaN();

static bool same(double a, double b) { return (a != a && b != b) || (a == b && std::signbit(a) == std::signbit(b)); }
template <class M>
static bool is3(const M& m, double x, double y, double z) {
  return same(m.x, x) && same(m.y, y) && same(m.z, z);
}
template <class E>
static bool isv(const E& e, std::initializer_list<double> v) {
  int i = 0;
  for (double x : v)
    if (!same(e(i++), x)) return false;
  return i == e.size();
}
static bool isq(const gm::Quaternion& q, double x, double y, double z, double w) { return same(q.x, x) && same(q.y, y) && same(q.z, z) && same(q.w, w); }
template <class M>
static M mk3(double x, double y, double z) {
  M m;
  m.x = x;
  m.y = y;
  m.z = z;
  return m;
}
static gm::Quaternion mkq(double x, double y, double z, double w) {
  gm::Quaternion q;
  q.x = x;
  q.y = y;
  q.z = z;
  q.w = w;
  return q;
}
#define MUST(c, what) \
  do {                \
    if (!(c)) r.fail(mc::cat(what, " [", #c, "]")); \
  } while (0)

static const std::vector<double> NUM = {0.0, 1.0, -2.5, 1e-300, -1e300, 0.1, INF, NaN, -0.0};
static const std::vector<float> NUMF = {0.0f, 1.0f, -2.5f, 1e-30f, -1e30f, 0.1f, (float)INF, (float)NaN};

#define COMMA ,
MC_SCENARIO(vectors, "every triple of nine coordinates (zeros, fractions, extremes, infinity, not-a-number) through every point and vector conversion, in double and single precision", 1) {
  const double x = r.pick(NUM), y = r.pick(NUM), z = r.pick(NUM);
  const std::string w = mc::cat("point ", x, " ", y, " ", z);
  const gm::Point p = mk3<gm::Point>(x, y, z);
  const gm::Vector3 v = mk3<gm::Vector3>(x, y, z);
  const V3 e(x, y, z);
  MUST(isv(ehc::GeometryPointToEigenVector3d(p), {x, y, z}), w);
  MUST(is3(ehc::EigenVector3dToGeometryPoint(e), x, y, z), w);
  MUST(isv(ehc::GeometryPointToEigenVector4d(p), {x, y, z, 1}), w);
  MUST(is3(ehc::EigenVector4dToGeometryPoint(V4(x, y, z, 1)), x, y, z), w);
  MUST(isv(ehc::GeometryVector3ToEigenVector3d(v), {x, y, z}), w);
  MUST(is3(ehc::EigenVector3dToGeometryVector3(e), x, y, z), w);
  MUST(isv(ehc::GeometryVector3ToEigenVector4d(v), {x, y, z, 0}), w);
  MUST(is3(ehc::EigenVector4dToGeometryVector3(V4(x, y, z, 0)), x, y, z), w);
  for (const char* f : {"", "map"}) {
    const gm::PointStamped s = ehc::EigenVector3dToGeometryPointStamped(e, f);
    MUST(is3(s.point, x, y, z) && s.header.frame_id == f && s.header.seq == 0 && s.header.stamp == ros::Time(), w);
  }
  MUST(isv(ConvertTo<V3>(p), {x, y, z}), w);
  MUST(isv(ConvertTo<V3>(v), {x, y, z}), w);
  MUST(is3(ConvertTo<gm::Point>(e), x, y, z), w);
  MUST(is3(ConvertTo<gm::Vector3>(e), x, y, z), w);
  using namespace arc_utilities::rmb;
  MUST(is3(MakePoint(x, y, z), x, y, z), w);
  MUST(is3(MakeVector3(x, y, z), x, y, z), w);
  {
    gm::Wrench wr;
    wr.force = v;
    wr.torque = mk3<gm::Vector3>(z, x + 1, 7);
    const auto pr = ehc::GeometryWrenchToEigenPairVector(wr);
    MUST(isv(pr.first, {x, y, z}) && isv(pr.second, {z, x + 1, 7}), w);
  }
  for (float a : NUMF) {
    const float b = (float)(x == x && std::fabs(x) < 1e30 ? x : 3), c = (float)(y == y && std::fabs(y) < 1e30 ? y : 4);
    const V3f ef(a, b, c);
    MUST(is3(ConvertTo<gm::Point>(ef), a, b, c), w);
    MUST(is3(ConvertTo<gm::Vector3>(ef), a, b, c), w);
    MUST(isv(ConvertTo<V3f>(mk3<gm::Point>(a, b, c)), {a, b, c}), w);
    MUST(isv(ConvertTo<V3f>(mk3<gm::Vector3>(a, b, c)), {a, b, c}), w);
  }
  r.step();
  r.state(mc::cat(x, ",", y, ",", z));
}

MC_SCENARIO(quaternions, "every quadruple of six values through every quaternion conversion and builder", 1) {
  const std::vector<double> A = {0.0, 1.0, -1.0, 0.5, -0.25, 1e-9};
  const double x = r.pick(A), y = r.pick(A), z = r.pick(A), w = r.pick(A);
  const std::string t = mc::cat("quaternion ", x, " ", y, " ", z, " ", w);
  const gm::Quaternion q = mkq(x, y, z, w);
  const Q e(w, x, y, z);
  const Qf f((float)w, (float)x, (float)y, (float)z);
  auto ise = [&](const Q& k) { return same(k.x(), x) && same(k.y(), y) && same(k.z(), z) && same(k.w(), w); };
  MUST(ise(ehc::GeometryQuaternionToEigenQuaterniond(q)), t);
  MUST(isq(ehc::EigenQuaterniondToGeometryQuaternion(e), x, y, z, w), t);
  MUST(ise(ConvertTo<Q>(q)), t);
  MUST(isq(ConvertTo<gm::Quaternion>(e), x, y, z, w), t);
  const Qf g = ConvertTo<Qf>(q);
  MUST(g.x() == f.x() && g.y() == f.y() && g.z() == f.z() && g.w() == f.w(), t);
  MUST(isq(ConvertTo<gm::Quaternion>(f), f.x(), f.y(), f.z(), f.w()), t);
  using namespace arc_utilities::rmb;
  MUST(isq(MakeQuaternion(x, y, z, w), x, y, z, w), t);
  const gm::Point p = mk3<gm::Point>(w, 10, x);
  const gm::Vector3 v = mk3<gm::Vector3>(w, 10, x);
  const gm::Pose a = MakePose(p, q), b = MakePose(v, q);
  MUST(is3(a.position, w, 10, x) && isq(a.orientation, x, y, z, w), t);
  MUST(is3(b.position, w, 10, x) && isq(b.orientation, x, y, z, w), t);
  const gm::Transform c = MakeTransform(p, q), d = MakeTransform(v, q);
  MUST(is3(c.translation, w, 10, x) && isq(c.rotation, x, y, z, w), t);
  MUST(is3(d.translation, w, 10, x) && isq(d.rotation, x, y, z, w), t);
  const gm::Transform tr = ConvertTo<gm::Transform>(Eigen::Translation3d(x, y, z));
  MUST(is3(tr.translation, x, y, z) && isq(tr.rotation, 0, 0, 0, 1), t);
  r.step();
  r.state(t);
}

// reference rotation matrix of a unit quaternion, written out
static M3 matrix(const gm::Quaternion& q) {
  const double x = q.x, y = q.y, z = q.z, w = q.w;
  M3 m;
  m << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), w * w - x * x + y * y - z * z,
      2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
  return m;
}
static bool close(double a, double b, double tol) { return std::fabs(a - b) <= tol; }
template <class T>
static bool isrigid(const T& t, const M3& m, const V3& p, double tol = 1e-12) {
  for (int i = 0; i < 3; i++) {
    if (!close(t.matrix()(i, 3), p(i), tol * (1 + std::fabs(p(i))))) return false;
    for (int j = 0; j < 3; j++)
      if (!close(t.matrix()(i, j), m(i, j), tol)) return false;
  }
  return t.matrix()(3, 0) == 0 && t.matrix()(3, 1) == 0 && t.matrix()(3, 2) == 0 && t.matrix()(3, 3) == 1;
}
static bool isrot(const gm::Quaternion& q, const M3& m, double tol = 1e-12) {
  return close(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w, 1, tol) && (matrix(q) - m).cwiseAbs().maxCoeff() <= tol;
}
template <class M>
static bool at(const M& m, const V3& p, double tol = 1e-12) {
  return close(m.x, p.x(), tol * (1 + std::fabs(p.x()))) && close(m.y, p.y(), tol * (1 + std::fabs(p.y()))) && close(m.z, p.z(), tol * (1 + std::fabs(p.z())));
}
struct Motion {
  gm::Quaternion q;
  V3 p;
  M3 m;
  Iso iso() const {
    Iso t = Iso::Identity();
    t.matrix().topLeftCorner<3, 3>() = m;
    t.matrix().topRightCorner<3, 1>() = p;
    return t;
  }
};
static gm::Quaternion turn(V3 k, double a) {
  k /= std::sqrt(k.dot(k));
  const double s = std::sin(a / 2);
  return mkq(k(0) * s, k(1) * s, k(2) * s, std::cos(a / 2));
}
static Motion motion(mc::Run& r, int axes, const std::vector<int>& degrees, int places) {
  static const std::vector<V3> AX = [] {
    std::vector<V3> v = {V3(1, 0, 0), V3(0, 1, 0), V3(0, 0, 1), V3(1, 2, 3)};
    for (int i = 0; i < 27; i++) {
      const V3 k(i % 3 - 1, i / 3 % 3 - 1, i / 9 - 1);
      if (k.cwiseAbs().sum() > 0) v.push_back(k);
    }
    v.push_back(V3(3, -1, 0.01));
    v.push_back(V3(-0.02, 5, 1));
    v.push_back(V3(0.5, 0.3, -9));
    return v;
  }();
  static const std::vector<V3> PL = {V3(1, -2, 3), V3(0, 0, 0), V3(-1e5, 1e-5, 7.25)};
  Motion m;
  const V3 k = AX[(size_t)r.choose(std::min(axes, (int)AX.size()), "axis")];
  const int d = r.pick(degrees);
  m.q = turn(k, d * M_PI / 180);
  if (d > 0 && r.flip("negated quaternion")) m.q = mkq(-m.q.x, -m.q.y, -m.q.z, -m.q.w);
  m.p = PL[(size_t)r.choose(places, "position")];
  m.m = matrix(m.q);
  return m;
}
static std::vector<int> steps(int d) {
  std::vector<int> v;
  for (int a = 0; a <= 360; a += d) v.push_back(a);
  if (d <= 15) v.insert(v.end(), {1, 179, 181, 359});
  return v;
}
MC_SCENARIO(poses, "every rotation about 33 axes in steps of 15 degrees (and one degree around 0 and 180), either sign of the quaternion, three positions, through every pose and transform conversion in both directions", 1) {
  const Motion m = motion(r, 99, steps(r.thorough() ? 5 : 15), 3);
  const std::string w = mc::cat("rotation ", m.q.x, " ", m.q.y, " ", m.q.z, " ", m.q.w, " position ", m.p(0), " ", m.p(1), " ", m.p(2));
  gm::Pose ps;
  ps.position = mk3<gm::Point>(m.p(0), m.p(1), m.p(2));
  ps.orientation = m.q;
  gm::Transform tf;
  tf.translation = mk3<gm::Vector3>(m.p(0), m.p(1), m.p(2));
  tf.rotation = m.q;
  MUST(isrigid(ehc::GeometryPoseToEigenIsometry3d(ps), m.m, m.p), w);
  MUST(isrigid(ehc::GeometryPoseToEigenAffine3d(ps), m.m, m.p), w);
  MUST(isrigid(ehc::GeometryTransformToEigenIsometry3d(tf), m.m, m.p), w);
  MUST(isrigid(ehc::GeometryTransformToEigenAffine3d(tf), m.m, m.p), w);
  MUST(isrigid(ConvertTo<Iso>(ps), m.m, m.p), w);
  MUST(isrigid(ConvertTo<Aff>(ps), m.m, m.p), w);
  MUST(isrigid(ConvertTo<Iso>(tf), m.m, m.p), w);
  MUST(isrigid(ConvertTo<Aff>(tf), m.m, m.p), w);
  const Iso t = m.iso();
  const Aff a(t);
  const Eigen::Affine3f f(a.cast<float>());
  const double tol = 1e-10;
  auto pose_ok = [&](const gm::Pose& p, double e) { return at(p.position, m.p, e) && isrot(p.orientation, m.m, e); };
  auto tf_ok = [&](const gm::Transform& p, double e) { return at(p.translation, m.p, e) && isrot(p.rotation, m.m, e); };
  MUST(pose_ok(ehc::EigenIsometry3dToGeometryPose(t), tol), w);
  MUST(pose_ok(ehc::EigenAffine3dToGeometryPose(a), tol), w);
  MUST(pose_ok(ehc::EigenAffine3fToGeometryPose(f), 1e-5), w);
  MUST(tf_ok(ehc::EigenIsometry3dToGeometryTransform(t), tol), w);
  MUST(tf_ok(ehc::EigenAffine3dToGeometryTransform(a), tol), w);
  MUST(tf_ok(ConvertTo<gm::Transform>(t), tol), w);
  MUST(tf_ok(ConvertTo<gm::Transform>(a), tol), w);
  MUST(isrot(ConvertTo<gm::Quaternion>(M3(m.m)), m.m, tol), w);
  MUST(isrot(ConvertTo<gm::Quaternion>(Eigen::Matrix3f(m.m.cast<float>())), m.m, 1e-5), w);
  for (const char* frame : {"", "base_link"}) {
    const gm::PoseStamped s = ehc::EigenIsometry3dToGeometryPoseStamped(t, frame), s2 = ehc::EigenAffine3dToGeometryPoseStamped(t, frame);
    MUST(pose_ok(s.pose, tol) && s.header.frame_id == frame, w);
    MUST(pose_ok(s2.pose, tol) && s2.header.frame_id == frame, w);
    const gm::TransformStamped ts = ehc::EigenIsometry3dToGeometryTransformStamped(t, frame);
    MUST(tf_ok(ts.transform, tol) && ts.header.frame_id == frame && ts.child_frame_id.empty(), w);
  }
  r.step();
  r.state(w);
}

MC_SCENARIO(lists, "every list of up to three of four motions through every list conversion: nothing lost, added or reordered", 2) {
  const int n = r.choose(r.thorough() ? 6 : 4, "length");
  std::vector<Motion> in;
  for (int i = 0; i < n; i++) {
    static const std::vector<Motion> M = [] {
      std::vector<Motion> v;
      const V3 ax[] = {V3(1, 0, 0), V3(1, 2, 3), V3(-1, 1, 4), V3(0, 1, -1)};
      for (int j = 0; j < 4; j++) {
        Motion m;
        m.q = turn(ax[j], 0.4 + 0.7 * j);
        m.p = V3(j + 0.5, -j, j * 10 + 1);
        m.m = matrix(m.q);
        v.push_back(m);
      }
      return v;
    }();
    in.push_back(M[(size_t)r.choose(4, "motion")]);
  }
  std::vector<gm::Point> pts;
  std::vector<gm::Vector3> vecs;
  std::vector<gm::Pose> poses;
  std::vector<gm::Transform> tfs;
  EigenHelpers::VectorVector3d ev;
  EigenHelpers::VectorIsometry3d iso;
  EigenHelpers::VectorAffine3d aff;
  Eigen::Matrix3Xd mat(3, n);
  std::string w = "list";
  for (int i = 0; i < n; i++) {
    const Motion& m = in[(size_t)i];
    pts.push_back(mk3<gm::Point>(m.p(0), m.p(1), m.p(2)));
    vecs.push_back(mk3<gm::Vector3>(m.p(0), m.p(1), m.p(2)));
    gm::Pose p;
    p.position = pts.back();
    p.orientation = m.q;
    poses.push_back(p);
    gm::Transform t;
    t.translation = vecs.back();
    t.rotation = m.q;
    tfs.push_back(t);
    ev.push_back(m.p);
    iso.push_back(m.iso());
    aff.push_back(Aff(m.iso()));
    mat.col(i) = m.p;
    w += mc::cat(" ", m.p(0));
  }
  const size_t N = (size_t)n;
  auto ismat = [&](const Eigen::Matrix3Xd& k) { return k.cols() == n && (n == 0 || (k - mat).cwiseAbs().maxCoeff() == 0); };
  auto ispts = [&](const std::vector<gm::Point>& k) {
    if (k.size() != N) return false;
    for (size_t i = 0; i < N; i++)
      if (!is3(k[i], in[i].p(0), in[i].p(1), in[i].p(2))) return false;
    return true;
  };
  auto isev = [&](const EigenHelpers::VectorVector3d& k) {
    if (k.size() != N) return false;
    for (size_t i = 0; i < N; i++)
      if (k[i] != in[i].p) return false;
    return true;
  };
  auto istr = [&](const auto& k) {
    if (k.size() != N) return false;
    for (size_t i = 0; i < N; i++)
      if (!isrigid(k[i], in[i].m, in[i].p)) return false;
    return true;
  };
  auto isposes = [&](const std::vector<gm::Pose>& k) {
    if (k.size() != N) return false;
    for (size_t i = 0; i < N; i++)
      if (!at(k[i].position, in[i].p, 1e-10) || !isrot(k[i].orientation, in[i].m, 1e-10)) return false;
    return true;
  };
  auto istfs = [&](const std::vector<gm::Transform>& k) {
    if (k.size() != N) return false;
    for (size_t i = 0; i < N; i++)
      if (!at(k[i].translation, in[i].p, 1e-10) || !isrot(k[i].rotation, in[i].m, 1e-10)) return false;
    return true;
  };
  MUST(ismat(ehc::VectorGeometryPointToEigenMatrix3Xd(pts)), w);
  MUST(ispts(ehc::EigenMatrix3XdToVectorGeometryPoint(mat)), w);
  MUST(ismat(ehc::VectorEigenVector3dToEigenMatrix3Xd(ev)), w);
  MUST(isev(ehc::EigenMatrix3XdToVectorEigenVector3d(mat)), w);
  MUST(ispts(ehc::VectorEigenVector3dToVectorGeometryPoint(ev)), w);
  MUST(isev(ehc::VectorGeometryPointToVectorEigenVector3d(pts)), w);
  MUST(isev(ehc::VectorGeometryVector3ToEigenVector3d(vecs)), w);
  MUST(ismat(ehc::VectorGeometryVector3ToEigenMatrix3Xd(vecs)), w);
  MUST(istr(ehc::VectorGeometryPoseToVectorIsometry3d(poses)), w);
  MUST(istr(ehc::VectorGeometryTransformToVectorIsometry3d(tfs)), w);
  MUST(istr(ehc::VectorGeometryTransformToVectorAffine3d(tfs)), w);
  MUST(isposes(ehc::VectorIsometry3dToVectorGeometryPose(iso)), w);
  MUST(isposes(ehc::VectorAffine3dToVectorGeometryPose(aff)), w);
  MUST(istfs(ehc::VectorIsometry3dToVectorGeometryTransform(iso)), w);
  MUST(istfs(ehc::VectorAffine3dToVectorGeometryTransform(aff)), w);
  MUST(istr(ConvertTo<gm::Pose COMMA Iso>(poses)), w);
  MUST(istr(ConvertTo<gm::Transform COMMA Aff>(tfs)), w);
  MUST(isev(ConvertTo<gm::Point COMMA V3>(pts)), w);
  r.step();
  r.state(w);
}

MC_SCENARIO(transforms, "pairs and lists of up to three points, transforms or translations moved by every one of 32 poses", 1) {
  const Motion m = motion(r, 4, {0, 90, 133, 180}, 2);
  const Pose T(m.iso());
  const std::vector<V3> P = {V3(1, 0, 0), V3(-2, 0.5, 4), V3(0, 0, 0)};
  const std::string w = mc::cat("pose ", m.q.x, " ", m.q.y, " ", m.q.z, " ", m.q.w);
  auto want = [&](const V3& p) -> V3 { return m.m * p + m.p; };
  auto near3 = [](const V3& a, const V3& b) { return (a - b).cwiseAbs().maxCoeff() < 1e-9; };
  for (const V3& a : P)
    for (const V3& b : P) {
      const auto pr = Transform(T, std::pair<V3 COMMA V3>(a, b));
      MUST(near3(pr.first, want(a)) && near3(pr.second, want(b)), w);
      const auto tp = Transform(T, std::pair<Eigen::Translation3d COMMA Eigen::Translation3d>(Eigen::Translation3d(a), Eigen::Translation3d(b)));
      MUST(isrigid(tp.first, m.m, want(a), 1e-9) && isrigid(tp.second, m.m, want(b), 1e-9), w);
      Pose A = Pose::Identity(), B = Pose::Identity();
      A.translation() = a;
      B.translation() = b;
      A.linear() = matrix(turn(V3(1, 1, 0), 1));
      const auto pp = Transform(T, std::pair<Pose COMMA V3>(A, b));
      MUST(isrigid(pp.first, m.m * A.linear(), want(a), 1e-9) && near3(pp.second, want(b)), w);
    }
  for (int n = 0; n < 4; n++) {
    const int c = r.thorough() || n < 3 ? (int)std::pow(3, n) : 27;
    for (int k = 0; k < c; k++) {
      PointSequence in;
      PoseSequence pin;
      int q = k;
      for (int i = 0; i < n; i++, q /= 3) {
        in.push_back(P[(size_t)(q % 3)]);
        Pose A = Pose::Identity();
        A.translation() = in.back();
        A.linear() = matrix(turn(V3(1, 1, 0), i));
        pin.push_back(A);
      }
      const PointSequence out = Transform(T, in);
      const PoseSequence pout = Transform(T, pin);
      MUST(out.size() == in.size() && pout.size() == pin.size(), w);
      for (size_t i = 0; i < in.size(); i++) {
        MUST(near3(out[i], want(in[i])), w);
        MUST(isrigid(pout[i], m.m * pin[i].linear(), want(in[i]), 1e-9), w);
      }
      r.step();
    }
  }
  r.state(w);
}

// ------------------------------------------------------------------ serialization
typedef std::vector<uint8_t> Bytes;
static bool eq(double a, double b) { return std::memcmp(&a, &b, sizeof a) == 0; }
static bool eq(const gm::Point& a, const gm::Point& b) { return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z); }
static bool eq(const gm::Vector3& a, const gm::Vector3& b) { return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z); }
static bool eq(const gm::Quaternion& a, const gm::Quaternion& b) { return eq(a.x, b.x) && eq(a.y, b.y) && eq(a.z, b.z) && eq(a.w, b.w); }
static bool eq(const std_msgs::Header& a, const std_msgs::Header& b) {
  return a.seq == b.seq && a.stamp.sec == b.stamp.sec && a.stamp.nsec == b.stamp.nsec && a.frame_id == b.frame_id;
}
static bool eq(const gm::Pose& a, const gm::Pose& b) { return eq(a.position, b.position) && eq(a.orientation, b.orientation); }
static bool eq(const gm::PoseStamped& a, const gm::PoseStamped& b) { return eq(a.header, b.header) && eq(a.pose, b.pose); }
static bool eq(const gm::Transform& a, const gm::Transform& b) { return eq(a.translation, b.translation) && eq(a.rotation, b.rotation); }
static bool eq(const gm::TransformStamped& a, const gm::TransformStamped& b) {
  return eq(a.header, b.header) && eq(a.transform, b.transform) && a.child_frame_id == b.child_frame_id;
}
// an arbitrary generated message
struct Custom {
  uint32_t a = 0;
  std::string s;
  std::vector<double> d;
};
static bool eq(const Custom& x, const Custom& y) { return x.a == y.a && x.s == y.s && x.d == y.d; }
static uint32_t stub_length(const Custom& c) { return (uint32_t)(4 + 4 + c.s.size() + 4 + 8 * c.d.size()); }
static void stub_write(ros::serialization::OStream& o, const Custom& c) {
  o.put(&c.a, 4);
  uint32_t n = (uint32_t)c.s.size();
  o.put(&n, 4);
  o.put(c.s.data(), n);
  n = (uint32_t)c.d.size();
  o.put(&n, 4);
  o.put(c.d.data(), 8 * n);
}
static void stub_read(ros::serialization::IStream& i, Custom& c) {
  uint32_t n;
  i.get(&c.a, 4);
  i.get(&n, 4);
  if (n > i.end - i.data) throw ros::serialization::StreamOverrunException("Buffer Overrun");
  c.s.resize(n);
  i.get(&c.s[0], n);
  i.get(&n, 4);
  if (n > (i.end - i.data) / 8) throw ros::serialization::StreamOverrunException("Buffer Overrun");
  c.d.resize(n);
  i.get(c.d.data(), 8 * n);
}
// an empty message, such as std_msgs/Empty
struct Nothing {};
static bool eq(const Nothing&, const Nothing&) { return true; }
static uint32_t stub_length(const Nothing&) { return 0; }
static void stub_write(ros::serialization::OStream&, const Nothing&) {}
static void stub_read(ros::serialization::IStream&, Nothing&) {}

struct Kind {
  const char* name;
  size_t variants;
  std::function<uint64_t(size_t, Bytes&)> write;
  std::function<uint64_t(mc::Run&, size_t, const Bytes&, uint64_t)> read;  // compares with the variant; how many bytes
  bool exact_refusal;
};
static std::vector<double> DV = {0.0, 1.5, -1e300, INF, 1e-310, -0.0, NaN, 0.1};
static double dv(size_t v, size_t i) { return DV[(v * 3 + i) % DV.size()]; }
static gm::Quaternion gq(size_t v) { return mkq(dv(v, 3), dv(v, 4), dv(v, 5), dv(v, 7)); }
static std_msgs::Header hd(size_t v) {
  std_msgs::Header h;
  h.seq = v % 3 == 0 ? 0 : v % 3 == 1 ? 0xffffffffu : 0x01020304u;
  h.stamp.sec = v % 2 ? 0x80000001u : 7;
  h.stamp.nsec = v % 4 < 2 ? 999999999u : 0;
  const char* f[] = {"", "base", "a/very/long/frame/name/with spaces and more", "x"};
  h.frame_id = f[v % 4];
  if (v == 5) h.frame_id = std::string("a\0b", 3);
  return h;
}
template <class M, class W, class R>
static Kind kind(const char* n, size_t variants, std::function<M(size_t)> make, W w, R rd, bool exact = true) {
  return Kind{n, variants, [make, w](size_t v, Bytes& b) { return w(make(v), b); },
              [make, rd, n](mc::Run& r, size_t v, const Bytes& b, uint64_t at) {
                const auto got = rd(b, at);
                if (!eq(got.first, make(v))) r.fail(mc::cat("variant ", v, " of ", n, " does not come back as written"));
                return got.second;
              },
              exact};
}
static const std::vector<Kind>& kinds() {
  using namespace arc_utilities;
  static std::vector<Kind> k = {
      kind<std_msgs::Header>("Header", 8, hd, SerializeHeader, DeserializeHeader),
      kind<gm::Point>("Point", 8, [](size_t v) { return mk3<gm::Point>(dv(v, 0), dv(v, 1), dv(v, 2)); }, SerializePoint, DeserializePoint),
      kind<gm::Vector3>("Vector3", 8, [](size_t v) { return mk3<gm::Vector3>(dv(v, 0), dv(v, 1), dv(v, 2)); }, SerializeVector3, DeserializeVector3),
      kind<gm::Quaternion>("Quaternion", 8, gq, SerializeQuaternion, DeserializeQuaternion),
      kind<gm::Pose>("Pose", 8, [](size_t v) { gm::Pose p; p.position = mk3<gm::Point>(dv(v, 0), dv(v, 1), dv(v, 2)); p.orientation = gq(v); return p; }, SerializePose, DeserializePose),
      kind<gm::PoseStamped>("PoseStamped", 8, [](size_t v) { gm::PoseStamped p; p.header = hd(v); p.pose.position = mk3<gm::Point>(dv(v, 0), dv(v, 1), dv(v, 2)); p.pose.orientation = gq(v); return p; }, SerializePoseStamped, DeserializePoseStamped),
      kind<gm::Transform>("Transform", 8, [](size_t v) { gm::Transform p; p.translation = mk3<gm::Vector3>(dv(v, 0), dv(v, 1), dv(v, 2)); p.rotation = gq(v); return p; }, SerializeTransform, DeserializeTransform),
      kind<gm::TransformStamped>("TransformStamped", 8, [](size_t v) { gm::TransformStamped p; p.header = hd(v); p.transform.translation = mk3<gm::Vector3>(dv(v, 0), dv(v, 1), dv(v, 2)); p.transform.rotation = gq(v); p.child_frame_id = hd(v + 1).frame_id; return p; }, SerializeTransformStamped, DeserializeTransformStamped),
      kind<Custom>("wrapped message", 6, [](size_t v) { Custom c; c.a = (uint32_t)(v * 0x40000001u); c.s = v == 1 ? "" : std::string(v * 3, 'q'); for (size_t i = 0; i < v % 4; i++) c.d.push_back((double)i + 0.5); return c; }, RosMessageSerializationWrapper<Custom>, RosMessageDeserializationWrapper<Custom>, false),
      kind<Nothing>("wrapped empty message", 1, [](size_t) { return Nothing(); }, RosMessageSerializationWrapper<Nothing>, RosMessageDeserializationWrapper<Nothing>, false),
  };
  return k;
}
MC_SCENARIO(serialization, "every sequence of up to two (thorough: three) messages of ten types and every variant behind zero to two other bytes, read back in order, and each last message cut short at every byte", 2) {
  const auto& K = kinds();
  Bytes b((size_t)r.choose(3, "bytes before"), 0xA5);
  const int n = 1 + r.choose(r.thorough() ? 3 : 2, "messages");
  std::vector<std::pair<size_t, size_t>> in;
  std::vector<uint64_t> starts;
  std::string w;
  for (int i = 0; i < n; i++) {
    const size_t k = (size_t)r.choose((int)K.size(), "type"), v = (size_t)r.choose((int)K[k].variants, "variant");
    const size_t before = b.size();
    const Bytes prefix = b;
    starts.push_back(before);
    w += mc::cat(" ", K[k].name, "#", v);
    const uint64_t wrote = K[k].write(v, b);
    if (wrote != b.size() - before) r.fail(mc::cat(w, ": reports ", wrote, " bytes, wrote ", b.size() - before));
    if (!std::equal(prefix.begin(), prefix.end(), b.begin())) r.fail(mc::cat(w, ": changed earlier bytes"));
    in.push_back({k, v});
    r.step();
  }
  uint64_t at = starts[0];
  for (size_t i = 0; i < in.size(); i++) {
    if (at != starts[i]) r.fail(mc::cat(w, ": message ", i, " starts at ", starts[i], ", reading its predecessors ends at ", at));
    at += K[in[i].first].read(r, in[i].second, b, at);
    r.step();
  }
  if (at != b.size()) r.fail(mc::cat(w, ": reading stops at ", at, " of ", b.size()));
  const auto& last = in.back();
  if (n == 1)
    for (size_t cut = starts.back() + 1; cut < b.size(); cut++) {
      Bytes c(b.begin(), b.begin() + (long)cut);
      c.shrink_to_fit();
      mc::Run& rr = r;
      bool returned = false;
      const auto o = trap::run([&] {
        K[last.first].read(rr, last.second, c, starts.back());
        returned = true;
      });
      if (returned && o == trap::Returned && K[last.first].exact_refusal) r.fail(mc::cat(w, " cut to ", cut - starts.back(), " of ", b.size() - starts.back(), " bytes is accepted"));
      r.step();
    }
  r.state(w + mc::str(starts[0]));
}

MC_SCENARIO(triangles, "every triple of five vertex numbers", 1) {
  const std::vector<uint32_t> A = {0, 1, 2, 0x7fffffff, 0xffffffff};
  const uint32_t a = r.pick(A), b = r.pick(A), c = r.pick(A);
  const shape_msgs::MeshTriangle t = arc_utilities::rmb::MakeMeshTriangle(a, b, c);
  if (t.vertex_indices[0] != a || t.vertex_indices[1] != b || t.vertex_indices[2] != c) r.fail(mc::cat("triangle ", a, " ", b, " ", c, " has other vertices"));
  r.step();
  r.state(mc::cat(a, " ", b, " ", c));
}
