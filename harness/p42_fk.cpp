// P42: fast forward kinematics of the four arms against a table-driven chain.
#include "trap.hpp"

#include <assert.h>

#include <arc_utilities/abb_irb1600_145_fk_fast.hpp>
#include <arc_utilities/iiwa_14_fk_fast.hpp>
#include <arc_utilities/iiwa_7_fk_fast.hpp>
#include <arc_utilities/ur_10_fk_fast.hpp>

typedef Eigen::Vector3d V3;
typedef Eigen::Matrix3d M3;
typedef Eigen::Isometry3d Iso;
typedef std::vector<double> Config;
static const double H = M_PI / 2, P = M_PI;

struct Joint {
  double x, y, z, roll, pitch, yaw;
  int axis;  // 0 x, 1 y, 2 z, -1 fixed
};
static M3 about(int axis, double a) {
  const double c = std::cos(a), s = std::sin(a);
  M3 m;
  if (axis == 0) m << 1, 0, 0, 0, c, -s, 0, s, c;
  else if (axis == 1) m << c, 0, s, 0, 1, 0, -s, 0, c;
  else m << c, -s, 0, s, c, 0, 0, 0, 1;
  return m;
}
struct Arm {
  const char* name;
  std::vector<Joint> joints;
  std::vector<std::string> joint_names, link_names;
  std::function<EigenHelpers::VectorIsometry3d(const Config&, const Iso*)> list;
  std::function<EigenHelpers::VectorIsometry3d(const std::map<std::string, double>&, const Iso*)> list_by_name;
  std::function<EigenHelpers::MapStringIsometry3d(const Config&, const Iso*)> map;
  std::function<EigenHelpers::MapStringIsometry3d(const std::map<std::string, double>&, const Iso*)> map_by_name;
};
#define ARM(NS)                                                                                                            \
  [](const Config& c, const Iso* b) { return b ? NS::GetLinkTransforms(c, *b) : NS::GetLinkTransforms(c); },               \
      [](const std::map<std::string, double>& c, const Iso* b) { return b ? NS::GetLinkTransforms(c, *b) : NS::GetLinkTransforms(c); }, \
      [](const Config& c, const Iso* b) { return b ? NS::GetLinkTransformsMap(c, *b) : NS::GetLinkTransformsMap(c); },     \
      [](const std::map<std::string, double>& c, const Iso* b) { return b ? NS::GetLinkTransformsMap(c, *b) : NS::GetLinkTransformsMap(c); }
static const std::vector<Arm>& arms() {
  static const std::vector<std::string> IJ = {"iiwa_joint_1", "iiwa_joint_2", "iiwa_joint_3", "iiwa_joint_4", "iiwa_joint_5", "iiwa_joint_6", "iiwa_joint_7"};
  static const std::vector<std::string> IL = {"iiwa_link_0", "iiwa_link_1", "iiwa_link_2", "iiwa_link_3", "iiwa_link_4", "iiwa_link_5", "iiwa_link_6", "iiwa_link_7"};
  static const std::vector<Arm> a = {
      {"UR 10",
       {{0, 0, 0.1273, 0, 0, 0, 2}, {0, 0.220941, 0, 0, H, 0, 1}, {0, -0.1719, 0.612, 0, 0, 0, 1}, {0, 0, 0.5723, 0, H, 0, 1}, {0, 0.1149, 0, 0, 0, 0, 2}, {0, 0, 0.1157, 0, 0, 0, 1}},
       {"shoulder_pan_joint", "shoulder_lift_joint", "elbow_joint", "wrist_1_joint", "wrist_2_joint", "wrist_3_joint"},
       {"base_link", "shoulder_link", "upper_arm_link", "forearm_link", "wrist_1_link", "wrist_2_link", "wrist_3_link"},
       ARM(UR_10_FK_FAST)},
      {"iiwa 7",
       {{0, 0, 0.15, 0, 0, 0, 2}, {0, 0, 0.19, H, 0, P, 2}, {0, 0.21, 0, H, 0, P, 2}, {0, 0, 0.19, H, 0, 0, 2}, {0, 0.21, 0, -H, P, 0, 2}, {0, 0.0607, 0.19, H, 0, 0, 2}, {0, 0.081, 0.0607, -H, P, 0, 2}},
       IJ, IL, ARM(IIWA_7_FK_FAST)},
      {"iiwa 14",
       {{0, 0, 0.1575, 0, 0, 0, 2}, {0, 0, 0.2025, H, 0, P, 2}, {0, 0.2045, 0, H, 0, P, 2}, {0, 0, 0.2155, H, 0, 0, 2}, {0, 0.1845, 0, -H, P, 0, 2}, {0, 0, 0.2155, H, 0, 0, 2}, {0, 0.081, 0, -H, P, 0, 2}},
       IJ, IL, ARM(IIWA_14_FK_FAST)},
      {"ABB IRB 1600",
       {{0, 0, 0.1245, 0, 0, 0, 2}, {0.15, -0.1395, 0.362, 0, 0, 0, 1}, {0, 0.028, 0.7, 0, 0, 0, 1}, {0.314, 0.107, 0, 0, 0, 0, 0}, {0.286, 0, 0, 0, 0, 0, 1}, {0, 0, 0, 0, 0, 0, 0}, {0.065, 0, 0, 0, H, 0, -1}},
       {"joint_1", "joint_2", "joint_3", "joint_4", "joint_5", "joint_6"},
       {"link_0", "link_1", "link_2", "link_3", "link_4", "link_5", "link_6", "link_7"},
       ARM(ABB_IRB1600_145_FK_FAST)},
  };
  return a;
}
static std::vector<Iso> bases() {
  std::vector<Iso> v(3, Iso::Identity());
  v[1].matrix().topLeftCorner<3, 3>() = about(2, 0.9) * about(0, -1.3);
  v[1].matrix().topRightCorner<3, 1>() = V3(1, -2, 0.5);
  v[2].matrix().topLeftCorner<3, 3>() = about(1, P);
  v[2].matrix().topRightCorner<3, 1>() = V3(0, 0, 100);
  return v;
}
static EigenHelpers::VectorIsometry3d reference(const Arm& a, const Config& c, const Iso& base) {
  EigenHelpers::VectorIsometry3d out;
  M3 R = base.matrix().topLeftCorner<3, 3>();
  V3 p = base.matrix().topRightCorner<3, 1>();
  auto push = [&] {
    Iso t = Iso::Identity();
    t.matrix().topLeftCorner<3, 3>() = R;
    t.matrix().topRightCorner<3, 1>() = p;
    out.push_back(t);
  };
  push();
  size_t k = 0;
  for (const Joint& j : a.joints) {
    p = p + R * V3(j.x, j.y, j.z);
    R = R * about(2, j.yaw) * about(1, j.pitch) * about(0, j.roll);
    if (j.axis >= 0) R = R * about(j.axis, c[k++]);
    push();
  }
  return out;
}
static bool same(const Iso& a, const Iso& b, double scale) { return (a.matrix() - b.matrix()).cwiseAbs().maxCoeff() <= 1e-9 * scale; }
static void compare(mc::Run& r, const Arm& a, const EigenHelpers::VectorIsometry3d& got, const EigenHelpers::VectorIsometry3d& want, const std::string& w) {
  if (got.size() != want.size()) r.fail(mc::cat(w, got.size(), " links"));
  for (size_t i = 0; i < got.size(); i++)
    if (!same(got[i], want[i], 1 + want[i].translation().cwiseAbs().maxCoeff()))
      r.fail(mc::cat(w, a.link_names[i], " is at ", got[i].translation()(0), " ", got[i].translation()(1), " ", got[i].translation()(2), ", by the chain ", want[i].translation()(0), " ",
                     want[i].translation()(1), " ", want[i].translation()(2), " (or is turned differently)"));
}
static void comparemap(mc::Run& r, const Arm& a, const EigenHelpers::MapStringIsometry3d& got, const EigenHelpers::VectorIsometry3d& want, const std::string& w) {
  if (got.size() != want.size()) r.fail(mc::cat(w, got.size(), " named links"));
  EigenHelpers::VectorIsometry3d l;
  for (auto& n : a.link_names) {
    if (!got.count(n)) r.fail(mc::cat(w, "no link ", n));
    l.push_back(got.at(n));
  }
  compare(r, a, l, want, w);
}
MC_SCENARIO(configurations, "four arms, three bases or none, every configuration with each joint at one of three (thorough: five) angles, by position and by name", 3) {
  const Arm& a = arms()[(size_t)r.choose(4, "arm")];
  static const std::vector<Iso> B = bases();
  const int b = r.choose(4, "base");
  const Iso* base = b == 3 ? nullptr : &B[(size_t)b];
  static const std::vector<double> few = {0, 0.7, -2.1}, many = {0, 0.7, -2.1, M_PI / 2, 5};
  const std::vector<double>& A = r.thorough() ? many : few;
  Config c;
  std::map<std::string, double> named;
  std::string w = mc::cat(a.name, ", base ", b, ", angles");
  for (auto& n : a.joint_names) {
    c.push_back(r.pick(A));
    named[n] = c.back();
    w += mc::cat(" ", c.back());
  }
  w += ": ";
  const auto want = reference(a, c, base ? *base : Iso::Identity());
  compare(r, a, a.list(c, base), want, w);
  compare(r, a, a.list_by_name(named, base), want, w + "by name: ");
  comparemap(r, a, a.map(c, base), want, w + "map: ");
  comparemap(r, a, a.map_by_name(named, base), want, w + "map by name: ");
  r.step();
  r.state(w);
}
MC_SCENARIO(each_joint, "four arms, each joint alone swept over a whole turn in five degree steps from a bent posture", 2) {
  const Arm& a = arms()[(size_t)r.choose(4, "arm")];
  const size_t k = (size_t)r.choose((int)a.joint_names.size(), "joint");
  const double t = -M_PI + r.choose(r.thorough() ? 721 : 73, "angle") * (r.thorough() ? M_PI / 360 : M_PI / 36);
  Config c;
  for (size_t i = 0; i < a.joint_names.size(); i++) c.push_back(i == k ? t : 0.3 + 0.2 * (double)i);
  const Iso base = bases()[1];
  const std::string w = mc::cat(a.name, ", ", a.joint_names[k], " at ", t, ": ");
  compare(r, a, a.list(c, &base), reference(a, c, base), w);
  r.step();
  r.state(w);
}
MC_SCENARIO(names, "four arms, every subset of the joints named, with and without an unknown name: unnamed joints are at zero; configurations of other lengths are refused", 2) {
  const Arm& a = arms()[(size_t)r.choose(4, "arm")];
  const int n = (int)a.joint_names.size(), mask = r.choose(1 << n, "joints named");
  const bool unknown = r.flip("unknown name");
  Config c((size_t)n, 0.0);
  std::map<std::string, double> named;
  if (unknown) named["no_such_joint"] = 3;
  for (int i = 0; i < n; i++)
    if (mask >> i & 1) named[a.joint_names[(size_t)i]] = c[(size_t)i] = 0.4 + 0.3 * i;
  const std::string w = mc::cat(a.name, ", joints ", mask, ": ");
  const auto want = reference(a, c, Iso::Identity());
  compare(r, a, a.list_by_name(named, nullptr), want, w);
  comparemap(r, a, a.map_by_name(named, nullptr), want, w);
  r.step();
  if (mask == 0 && !unknown)
    for (int len = 0; len < 10; len++)
      if (len != n) {
        const Config bad((size_t)len, 0.1);
        if (trap::run([&] { a.list(bad, nullptr); }) == trap::Returned) r.fail(mc::cat(a.name, ": a configuration of ", len, " angles is accepted"));
        r.step();
      }
  r.state(mc::cat(w, unknown));
}
