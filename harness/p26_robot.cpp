// P26: robot models (linked, planar, free-flying) and fixed-arm kinematics.
#include "trap.hpp"

#include <arc_utilities/abb_irb1600_145_fk_fast.hpp>
#include <arc_utilities/iiwa_14_fk_fast.hpp>
#include <arc_utilities/iiwa_7_fk_fast.hpp>
#include <arc_utilities/simple_robot_models.hpp>
#include <arc_utilities/ur_10_fk_fast.hpp>

#include <array>
#include <memory>

using namespace simple_linked_robot_model;
using Eigen::Isometry3d;
using Eigen::Vector3d;
using Eigen::Vector4d;
typedef SimpleJointModel JM;
static const double PI = M_PI;
static struct Quiet {
  Quiet() { std::cerr.setstate(std::ios::failbit); }
} quiet;

// ---- independent rigid transforms: rotation matrix and translation in plain arrays
struct T3 {
  double R[3][3], p[3];
};
static T3 ident() {
  T3 t;
  for (int i = 0; i < 3; i++) {
    t.p[i] = 0;
    for (int j = 0; j < 3; j++) t.R[i][j] = i == j;
  }
  return t;
}
static T3 mul(const T3& a, const T3& b) {
  T3 t;
  for (int i = 0; i < 3; i++) {
    t.p[i] = a.p[i];
    for (int k = 0; k < 3; k++) t.p[i] += a.R[i][k] * b.p[k];
    for (int j = 0; j < 3; j++) {
      t.R[i][j] = 0;
      for (int k = 0; k < 3; k++) t.R[i][j] += a.R[i][k] * b.R[k][j];
    }
  }
  return t;
}
static T3 inv(const T3& a) {
  T3 t;
  for (int i = 0; i < 3; i++) {
    t.p[i] = 0;
    for (int k = 0; k < 3; k++) {
      t.p[i] -= a.R[k][i] * a.p[k];
      t.R[i][k] = a.R[k][i];
    }
  }
  return t;
}
typedef std::array<double, 3> V3;
static V3 app(const T3& a, const V3& v) {
  V3 o;
  for (int i = 0; i < 3; i++) {
    o[i] = a.p[i];
    for (int k = 0; k < 3; k++) o[i] += a.R[i][k] * v[k];
  }
  return o;
}
static T3 tr(double x, double y, double z) {
  T3 t = ident();
  t.p[0] = x, t.p[1] = y, t.p[2] = z;
  return t;
}
static T3 rot(const V3& a, double q) {
  T3 t = ident();
  const double c = std::cos(q), s = std::sin(q);
  const double K[3][3] = {{0, -a[2], a[1]}, {a[2], 0, -a[0]}, {-a[1], a[0], 0}};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++) t.R[i][j] = (i == j ? c : 0) + s * K[i][j] + (1 - c) * a[i] * a[j];
  return t;
}
static T3 rpy(double r, double p, double y) { return mul(rot({{0, 0, 1}}, y), mul(rot({{0, 1, 0}}, p), rot({{1, 0, 0}}, r))); }
static Isometry3d iso(const T3& t) {
  Isometry3d o = Isometry3d::Identity();
  for (int i = 0; i < 3; i++) {
    o.matrix()(i, 3) = t.p[i];
    for (int j = 0; j < 3; j++) o.matrix()(i, j) = t.R[i][j];
  }
  return o;
}
static double gap(const T3& a, const Isometry3d& b) {
  double m = 0;
  for (int i = 0; i < 3; i++) {
    m = std::max(m, std::fabs(a.p[i] - b.matrix()(i, 3)));
    for (int j = 0; j < 3; j++) m = std::max(m, std::fabs(a.R[i][j] - b.matrix()(i, j)));
  }
  for (int j = 0; j < 4; j++) m = std::max(m, std::fabs(b.matrix()(3, j) - (j == 3)));
  return m == m ? m : 1e300;
}
static double wrap(double v) {
  double w = std::remainder(v, 2 * PI);
  return w;
}
static double interp(double a, double b, double t) { return a + (b - a) * t; }

// ---- linked robots
static const JM::JOINT_TYPE TYPES[4] = {JM::REVOLUTE, JM::PRISMATIC, JM::CONTINUOUS, JM::FIXED};
static const V3 AXES[4] = {{{0, 0, 1}}, {{0.6, 0.8, 0}}, {{0, -1, 0}}, {{1, 0, 0}}};
static const std::pair<double, double> LIM[4] = {{-1.5, 2.0}, {-0.25, 0.75}, {0.5, 2.5}, {-2.0, -0.5}};
static T3 fixedpart(int j) { return mul(tr(0.3 + 0.1 * j, -0.2 * j, 0.1 + 0.05 * j), rpy(0.4 - 0.3 * j, 0.2 * j, -0.7 + 0.5 * j)); }
static T3 basepose(int k) { return k == 0 ? ident() : k == 1 ? mul(tr(1, -2, 0.5), rpy(0.3, -0.2, 1.1)) : mul(tr(-0.4, 0.7, 3), rpy(-2.1, 0.9, 0.2)); }
struct Arm {
  int n;                     // links
  std::vector<int> parent;   // by link (0 is the root)
  std::vector<int> order;    // joint k in the list drives link order[k]
  std::vector<int> type;     // by link
  bool fixed(int link) const { return TYPES[type[link]] == JM::FIXED; }
  std::vector<int> active() const {
    std::vector<int> a;
    for (int l : order)
      if (!fixed(l)) a.push_back(l);
    return a;
  }
  std::string str() const {
    std::string s;
    for (int l : order) s += mc::cat(s.empty() ? "" : ", ", "L", parent[l], "->L", l, " ", type[l] == 0 ? "revolute" : type[l] == 1 ? "prismatic" : type[l] == 2 ? "continuous" : "fixed");
    return s;
  }
};
static double held(const Arm& a, int l, double v) {
  if (TYPES[a.type[l]] == JM::CONTINUOUS) return wrap(v);
  if (a.fixed(l)) return 0;
  return std::min(std::max(v, LIM[l].first), LIM[l].second);
}
static JM jm(int l, int type, double v) { return JM(TYPES[type] == JM::FIXED ? std::make_pair(0.0, 0.0) : LIM[l], v, TYPES[type]); }
static SimpleLinkedConfiguration cfg(const Arm& a, const std::vector<double>& v) {
  SimpleLinkedConfiguration c;
  const auto act = a.active();
  for (size_t i = 0; i < act.size(); i++) c.push_back(jm(act[i], a.type[act[i]], v[act[i]]));
  return c;
}
static std::vector<RobotLink> links(const Arm& a) {
  std::vector<RobotLink> L;
  for (int i = 0; i < a.n; i++) L.push_back(RobotLink(mc::cat("L", i)));
  return L;
}
static std::vector<RobotJoint> joints(const Arm& a) {
  std::vector<RobotJoint> J;
  for (int l : a.order) J.push_back(RobotJoint(iso(fixedpart(l)), Vector3d(AXES[l][0], AXES[l][1], AXES[l][2]), a.parent[l], l, jm(l, a.type[l], 0.1), mc::cat("J", l)));
  return J;
}
static T3 motion(const Arm& a, int l, double v) {
  switch (TYPES[a.type[l]]) {
    case JM::REVOLUTE:
    case JM::CONTINUOUS: return rot(AXES[l], v);
    case JM::PRISMATIC: return tr(AXES[l][0] * v, AXES[l][1] * v, AXES[l][2] * v);
    default: return ident();
  }
}
static T3 pose(const Arm& a, const T3& base, const std::vector<double>& v, int l) {
  if (l == 0) return base;
  return mul(pose(a, base, v, a.parent[l]), mul(fixedpart(l), motion(a, l, v[l])));
}
static std::vector<int> kinds(mc::Run& r, int n, std::vector<std::vector<int>>& trees) {
  // every labelled tree rooted at 0
  std::vector<int> par((size_t)n, 0);
  std::function<void(int)> go = [&](int l) {
    if (l == n) {
      for (int i = 1; i < n; i++) {
        int k = i, s = 0;
        while (k != 0 && s++ <= n) k = par[k];
        if (k != 0) return;
      }
      trees.push_back(par);
      return;
    }
    for (int p = 0; p < n; p++)
      if (p != l) {
        par[l] = p;
        go(l + 1);
      }
  };
  go(1);
  (void)r;
  return par;
}
static Arm choosearm(mc::Run& r, int n) {
  static std::vector<std::vector<int>> trees[6];
  if (trees[n].empty()) kinds(r, n, trees[n]);
  Arm a;
  a.n = n;
  a.parent = trees[n][(size_t)r.choose((int)trees[n].size(), "tree")];
  std::vector<int> left;
  for (int i = 1; i < n; i++) left.push_back(i);
  while (!left.empty()) {
    const int k = r.choose((int)left.size(), "next joint listed");
    a.order.push_back(left[k]);
    left.erase(left.begin() + k);
  }
  a.type.assign(n, 3);
  for (int i = 1; i < n; i++) a.type[i] = r.choose(4, "joint type");
  return a;
}
static const double POS[4][4] = {{0, 0.4, 1.1, -0.9}, {0, -5.0, 0.2, 7.0}, {0, 9.0, -4.0, 0.3}, {0, 1.3, -0.1, -2.5}};
static std::vector<double> posv(int k) {
  std::vector<double> v(POS[k], POS[k] + 4);
  v.push_back(0.77 - k);
  return v;
}
static std::vector<double> heldall(const Arm& a, std::vector<double> v) {
  for (int l = 0; l < a.n; l++) v[l] = l ? held(a, l, v[l]) : 0;
  return v;
}
static void check(mc::Run& r, const SimpleLinkedRobot& bot, const Arm& a, const T3& base, const std::vector<double>& v, const std::string& at) {
  const auto act = a.active();
  const auto& pos = bot.GetPosition();
  if (pos.size() != act.size()) r.fail(mc::cat(at, ": position has ", pos.size(), " joints, ", act.size(), " are active"));
  const auto names = bot.GetActiveJointNames();
  for (size_t i = 0; i < act.size(); i++) {
    const int l = act[i];
    if (std::fabs(pos[i].GetValue() - v[l]) > 1e-12) r.fail(mc::cat(at, ": joint of L", l, " is at ", pos[i].GetValue(), ", expected ", v[l]));
    if (pos[i].GetType() != TYPES[a.type[l]]) r.fail(mc::cat(at, ": joint of L", l, " changed type"));
    if (names.size() != act.size() || names[i] != mc::cat("J", l)) r.fail(mc::cat(at, ": active joint names do not follow the joints"));
  }
  const auto lt = bot.GetLinkTransforms();
  const auto lm = bot.GetLinkTransformsMap();
  const auto ln = bot.GetLinkNames();
  if ((int)lt.size() != a.n || (int)lm.size() != a.n || (int)ln.size() != a.n) r.fail(at + ": wrong number of links");
  for (int l = 0; l < a.n; l++) {
    const T3 want = pose(a, base, v, l);
    if (ln[l] != mc::cat("L", l)) r.fail(at + ": link names out of order");
    const double g = gap(want, lt[l]);
    if (g > 1e-9) r.fail(mc::cat(at, ": pose of L", l, " is off by ", g, " from the product of transforms from the root"));
    if (gap(want, lm.at(ln[l])) > 1e-9 || gap(want, bot.GetLinkTransform(ln[l])) > 1e-9) r.fail(mc::cat(at, ": pose of L", l, " by name differs"));
  }
  if (gap(base, bot.GetBaseTransform()) > 1e-12) r.fail(at + ": base transform lost");
  if (gap(inv(base), bot.GetInverseBaseTransform()) > 1e-9) r.fail(at + ": inverse base transform is not the inverse of the base transform");
  bool threw = false;
  try {
    bot.GetLinkTransform("no such link");
  } catch (const std::invalid_argument&) {
    threw = true;
  }
  if (!threw) r.fail(at + ": an unknown link has a pose");
}
static void jacobian(mc::Run& r, const SimpleLinkedRobot& bot, const Arm& a, const T3& base, const std::vector<double>& v) {
  const auto act = a.active();
  const V3 pt = {{0.2, -0.3, 0.45}};
  for (int l = 0; l < a.n; l++) {
    const auto J = bot.ComputeLinkPointJacobian(mc::cat("L", l), Vector4d(pt[0], pt[1], pt[2], 1));
    const auto Jt = bot.ComputeLinkPointTranslationJacobian(mc::cat("L", l), Vector4d(pt[0], pt[1], pt[2], 1));
    if (J.cols() != (long)act.size() || Jt.cols() != (long)act.size()) r.fail("Jacobian has the wrong number of columns");
    for (size_t c = 0; c < act.size(); c++) {
      const double h = 1e-5;
      std::vector<double> hi = v, lo = v;
      hi[act[c]] += h, lo[act[c]] -= h;
      const T3 th = pose(a, base, hi, l), tl = pose(a, base, lo, l), t0 = pose(a, base, v, l);
      const V3 ph = app(th, pt), pl = app(tl, pt);
      // angular velocity from dR * R^T
      double W[3][3];
      for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++) {
          W[i][j] = 0;
          for (int k = 0; k < 3; k++) W[i][j] += (th.R[i][k] - tl.R[i][k]) / (2 * h) * t0.R[j][k];
        }
      const double want[6] = {(ph[0] - pl[0]) / (2 * h), (ph[1] - pl[1]) / (2 * h), (ph[2] - pl[2]) / (2 * h), W[2][1], W[0][2], W[1][0]};
      for (int i = 0; i < 6; i++) {
        if (!(std::fabs(J(i, (long)c) - want[i]) < 1e-6)) r.fail(mc::cat("L", l, ": Jacobian row ", i, " for the joint of L", act[c], " is ", J(i, (long)c), ", the derivative is ", want[i]));
        if (i < 3 && Jt(i, (long)c) != J(i, (long)c)) r.fail("translation Jacobian differs from the full one");
      }
    }
  }
}
static void history(mc::Run& r, int n, int depth, bool jac) {
  Arm a = choosearm(r, n);
  const auto act = a.active();
  int b = 1;
  std::vector<double> v = heldall(a, posv(0));
  SimpleLinkedRobot bot(iso(basepose(b)), links(a), joints(a), cfg(a, posv(0)), std::vector<double>(act.size(), 1.0));
  r.note([&] { return a.str(); });
  check(r, bot, a, basepose(b), v, "fresh");
  for (int s = 0; s < depth; s++) {
    const int op = r.choose(8, "operation");
    std::string at;
    if (op < 3) {
      at = mc::cat("after setting position ", op + 1);
      // values reach the model through the configuration, whose joints hold their own limits; use limitless carriers
      SimpleLinkedConfiguration c;
      for (int l : act) c.push_back(JM({-100, 100}, posv(op + 1)[l], TYPES[a.type[l]]));
      v = heldall(a, posv(op + 1));
      const auto& back = bot.SetPosition(c);
      if (&back != &bot.GetPosition()) r.fail("setting the position does not return it");
    } else if (op == 3) {
      at = "after setting its own position";
      if (trap::run([&] { bot.SetPosition(bot.GetPosition()); }) != trap::Returned) r.fail("the robot refuses its own position");
    } else if (op == 4) {
      at = "after a position of the wrong size";
      for (int d : {-1, 1}) {
        if (d < 0 && act.empty()) continue;
        SimpleLinkedConfiguration c(act.size() + d, JM({-1, 1}, 0.9, JM::REVOLUTE));
        if (trap::run([&] { bot.SetPosition(c); }) == trap::Returned) r.fail("a position of the wrong size was accepted");
      }
    } else if (op == 5) {
      b = b == 1 ? 2 : 1;
      at = mc::cat("after moving the base to ", b);
      bot.UpdateBaseTransform(iso(basepose(b)));
    } else if (op == 6) {
      at = "after changing a clone";
      std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<SimpleLinkedConfiguration, SimpleLinkedConfigAlloc>> c(bot.Clone());
      auto* k = dynamic_cast<SimpleLinkedRobot*>(c.get());
      if (!k) r.fail("a clone is not the same kind of robot");
      check(r, *k, a, basepose(b), v, "clone");
      c->SetPosition(cfg(a, posv(3)));
      k->UpdateBaseTransform(iso(basepose(0)));
      check(r, *k, a, basepose(0), heldall(a, posv(3)), "changed clone");
    } else {
      at = "after assigning from another robot";
      SimpleLinkedRobot other(iso(basepose(2)), links(a), joints(a), cfg(a, posv(2)), std::vector<double>(act.size(), 1.0));
      bot = other;
      b = 2;
      v = heldall(a, posv(2));
    }
    r.note([&] { return at; });
    r.step();
    check(r, bot, a, basepose(b), v, at);
  }
  if (jac) jacobian(r, bot, a, basepose(b), v);
  r.state(mc::cat(a.str(), b, mc::str(v)));
}
MC_SCENARIO(histories, "every labelled tree of 3 links with joints listed in every order and of every type, every history of 3 (thorough 4) operations out of set position (in and out of limits), set own position, wrong sizes, move base, clone, assign: link poses, names, positions, base and Jacobians", 3) {
  history(r, 3, r.bound(3, 4), true);
}
MC_SCENARIO(trees4, "every labelled tree of 4 links, every joint order and type, every operation (thorough: pair of operations)", 3) { history(r, 4, r.bound(1, 2), true); }
MC_SCENARIO_X(trees4x3, "every labelled tree of 4 links, every joint order and type, every history of 3 operations", 4, false, true) { history(r, 4, 3, false); }
MC_SCENARIO(structures, "every assignment of parent and child indices from -1 to the number of links for up to 3 joints (thorough also one joint too many or too few): accepted exactly when the joints form one tree rooted at the first link", 2) {
  const int nj = r.choose(4, "joints"), nl = nj + 1 + (r.thorough() ? r.choose(3, "links") - 1 : 0);
  if (nl > 4) throw mc::Prune();
  std::vector<RobotLink> L;
  for (int i = 0; i < nl; i++) L.push_back(RobotLink(mc::cat("L", i)));
  std::vector<RobotJoint> J;
  std::vector<std::pair<int, int>> e;
  for (int j = 0; j < nj; j++) {
    const int p = r.choose(nl + 2, "parent") - 1, c = r.choose(nl + 2, "child") - 1;
    e.push_back({p, c});
    J.push_back(RobotJoint(Isometry3d::Identity(), Vector3d::UnitZ(), p, c, JM(), mc::cat("J", j)));
  }
  bool ok = nl == nj + 1;
  std::vector<int> par((size_t)std::max(nl, 1), -2);
  for (auto& x : e) {
    if (x.first < 0 || x.first >= nl || x.second < 1 || x.second >= nl || par[x.second] != -2) {
      ok = false;
      break;
    }
    par[x.second] = x.first;
  }
  for (int l = 1; ok && l < nl; l++) {
    int k = l, s = 0;
    while (k > 0 && s++ <= nl) k = par[k];
    if (k != 0) ok = false;
  }
  r.note([&] { return mc::cat(nl, " links, joints ", [&] { std::string t; for (auto& x : e) t += mc::cat(x.first, "->", x.second, " "); return t; }()); });
  bool built = true;
  const auto o = trap::run([&] { SimpleLinkedRobot bot(Isometry3d::Identity(), L, J, SimpleLinkedConfiguration(), std::vector<double>()); });
  built = o == trap::Returned;
  if (o == trap::Asserted) r.fail("an assertion fired instead of a refusal");
  if (built != ok) r.fail(built ? "an invalid structure was accepted" : "a valid tree was refused");
  r.step();
  r.state(mc::cat(nl, nj, built));
}
MC_SCENARIO(details, "a chain of 3 links with one flaw at a time: duplicate link or joint names, axes that are not of unit length or not numbers, wrong numbers of weights, initial positions of the wrong size", 1) {
  const int flaw = r.choose(12, "flaw");
  Arm a;
  a.n = 3;
  a.parent = {0, 0, 1};
  a.order = {1, 2};
  a.type = {3, 0, 2};
  auto L = links(a);
  auto J = joints(a);
  auto c = cfg(a, posv(0));
  std::vector<double> w(2, 1.0);
  const double nan = std::numeric_limits<double>::quiet_NaN();
  switch (flaw) {
    case 1: L[2].LinkName() = "L0"; break;
    case 2: J[1].JointName() = J[0].JointName(); break;
    case 3: J[1].JointAxis() = Vector3d(0, 0, 1.001); break;
    case 4: J[0].JointAxis() = Vector3d(0, 0, 0); break;
    case 5: J[0].JointAxis() = Vector3d(0, nan, 1); break;
    case 6: w.push_back(1); break;
    case 7: w.pop_back(); break;
    case 8: c.pop_back(); break;
    case 9: c.push_back(c[0]); break;
    case 10: L[0].LinkName() = "L1"; break;
    case 11: J[1].JointAxis() = Vector3d(1, 1, 0); break;
  }
  const bool built = trap::run([&] { SimpleLinkedRobot bot(Isometry3d::Identity(), L, J, c, w); }) == trap::Returned;
  if (built != (flaw == 0)) r.fail(mc::cat("flaw ", flaw, built ? " accepted" : " refused"));
  r.step();
  r.state(mc::cat(flaw));
}
MC_SCENARIO(measures, "every triple of joint types, all pairs of 5 values per joint, weights including zero and negative: signed, unsigned and total distances; interpolation at 9 ratios within limits and along the shorter arc; averages of non-continuous joints; mismatched sizes and types refused", 3) {
  Arm a;
  a.n = 3;
  a.parent = {0, 0, 1};
  a.order = {1, 2};
  a.type = {3, r.choose(3, "type"), r.choose(3, "type")};
  static const double VAL[5] = {-3.0, -0.6, 0.0, 0.7, 3.0};
  std::vector<double> x(3), y(3);
  for (int l = 1; l < 3; l++) {
    x[l] = held(a, l, VAL[r.choose(5, "value")]);
    y[l] = held(a, l, VAL[r.choose(5, "value")]);
  }
  std::vector<double> w(2, 1.0);
  const int wk = r.choose(3, "weights");
  if (wk == 1) w = {2.0, 0.0};
  if (wk == 2) w = {-3.0, 0.5};
  SimpleLinkedRobot bot(iso(basepose(1)), links(a), joints(a), cfg(a, x), w);
  const auto cx = cfg(a, x), cy = cfg(a, y);
  r.note([&] { return mc::cat(a.str(), " from ", mc::str(x), " to ", mc::str(y), " weights ", mc::str(w)); });
  const auto sd = bot.ComputePerDimensionConfigurationSignedDistance(cx, cy);
  const auto ud = bot.ComputePerDimensionConfigurationDistance(cx, cy);
  const auto raw = SimpleLinkedRobot::ComputeUnweightedPerDimensionConfigurationRawDistance(cx, cy);
  double sum = 0;
  for (int i = 0; i < 2; i++) {
    const int l = i + 1;
    double d = y[l] - x[l];
    const bool cont = TYPES[a.type[l]] == JM::CONTINUOUS;
    if (cont) d = wrap(d);
    const double W = std::fabs(w[i]);
    const double alt = cont && std::fabs(std::fabs(d) - PI) < 1e-9 ? -d : d;
    auto is = [&](double got, double f) { return std::fabs(got - d * f) < 1e-9 || std::fabs(got - alt * f) < 1e-9; };
    if (sd.size() != 2 || !is(sd(i), W)) r.fail(mc::cat("signed distance of joint ", i, " is ", sd(i), ", expected ", d * W));
    if (std::fabs(ud(i) - std::fabs(d * W)) > 1e-9) r.fail(mc::cat("distance of joint ", i, " is ", ud(i), ", expected ", std::fabs(d * W)));
    if (!is(raw(i), 1)) r.fail(mc::cat("unweighted distance of joint ", i, " is ", raw(i), ", expected ", d));
    sum += d * d * W * W;
  }
  const double dist = bot.ComputeConfigurationDistance(cx, cy), back = bot.ComputeConfigurationDistance(cy, cx);
  if (std::fabs(dist - std::sqrt(sum)) > 1e-9 || std::fabs(dist - back) > 1e-9) r.fail(mc::cat("distance ", dist, ", back ", back, ", expected ", std::sqrt(sum)));
  if (bot.ComputeConfigurationDistanceTo(cy) != dist || bot.ComputePerDimensionConfigurationDistanceTo(cy) != ud || bot.ComputePerDimensionConfigurationSignedDistanceTo(cy) != sd) r.fail("distances from the current position differ");
  for (int k = 0; k <= 8; k++) {
    const double t = k / 8.0;
    const auto m = bot.InterpolateBetweenConfigurations(cx, cy, t);
    if (m.size() != 2) r.fail("an interpolated configuration has the wrong size");
    for (int i = 0; i < 2; i++) {
      const int l = i + 1;
      const bool cont = TYPES[a.type[l]] == JM::CONTINUOUS;
      const double got = m[i].GetValue();
      bool ok;
      if (cont) {
        const double d = wrap(y[l] - x[l]);
        ok = std::fabs(wrap(got - (x[l] + d * t))) < 1e-9 || (std::fabs(std::fabs(d) - PI) < 1e-9 && std::fabs(wrap(got - (x[l] - d * t))) < 1e-9);
      } else
        ok = std::fabs(got - interp(x[l], y[l], t)) < 1e-9;
      if (!ok) r.fail(mc::cat("at ratio ", t, " joint ", i, " is at ", got, " between ", x[l], " and ", y[l]));
      if (m[i].GetType() != TYPES[a.type[l]] || m[i].GetLimits() != cx[i].GetLimits() || !m[i].InLimits(got)) r.fail("an interpolated joint changed its type or limits");
    }
  }
  typedef std::vector<SimpleLinkedConfiguration, SimpleLinkedConfigAlloc> Cs;
  const auto one = bot.AverageConfigurations(Cs{cx}), two = bot.AverageConfigurations(Cs{cx, cy, cy});
  if (one.size() != 2 || two.size() != 2 || !bot.AverageConfigurations(Cs()).empty()) r.fail("an average has the wrong size");
  for (int i = 0; i < 2; i++) {
    const int l = i + 1;
    if (std::fabs(wrap(one[i].GetValue() - x[l])) > 1e-9) r.fail("the average of one configuration is another");
    if (TYPES[a.type[l]] != JM::CONTINUOUS && std::fabs(two[i].GetValue() - (x[l] + 2 * y[l]) / 3) > 1e-9) r.fail(mc::cat("average of ", x[l], " and twice ", y[l], " is ", two[i].GetValue()));
    if (two[i].GetType() != TYPES[a.type[l]] || two[i].GetLimits() != cx[i].GetLimits()) r.fail("an averaged joint changed its type or limits");
  }
  // refusals
  auto small = cy;
  small.pop_back();
  auto other = cy;
  other[1] = JM(LIM[2], 0.6, TYPES[(a.type[2] + 1) % 3]);
  for (const auto& bad : {small, other}) {
    if (trap::run([&] { bot.ComputePerDimensionConfigurationSignedDistance(cx, bad); }) == trap::Returned) r.fail("mismatched configurations have a distance");
    if (trap::run([&] { bot.ComputeConfigurationDistance(bad, cx); }) == trap::Returned) r.fail("mismatched configurations have a distance");
    if (trap::run([&] { SimpleLinkedRobot::ComputeUnweightedPerDimensionConfigurationRawDistance(cx, bad); }) == trap::Returned) r.fail("mismatched configurations have an unweighted distance");
    if (trap::run([&] { bot.InterpolateBetweenConfigurations(cx, bad, 0.5); }) == trap::Returned) r.fail("mismatched configurations were interpolated");
    if (trap::run([&] { bot.AverageConfigurations(Cs{cx, bad}); }) == trap::Returned) r.fail("mismatched configurations were averaged");
  }
  r.step();
  r.state(mc::cat(a.str(), mc::str(x), mc::str(y), wk));
}
MC_SCENARIO(jointmodels, "every joint type, 6 pairs of limits, 17 values including limits, neighbours, infinities and NaN: value held within limits or wrapped, limits and refusals, copies, serialization at two buffer offsets", 2) {
  static const std::pair<double, double> LI[6] = {{-1, 2}, {0, 0}, {0.5, 0.75}, {-1e6, 1e6}, {-3, -2}, {2, -1}};
  const auto type = TYPES[r.choose(4, "type")];
  const auto li = LI[r.choose(6, "limits")];
  const double inf = std::numeric_limits<double>::infinity();
  const std::vector<double> V = {0, -0.0, 1, -1, 2, -2, 0.5, 0.75, std::nextafter(2.0, 3.0), std::nextafter(-1.0, -2.0), PI, -PI, 10, -1e7, inf, -inf, std::nan("")};
  const double v = r.pick(V);
  const bool cont = type == JM::CONTINUOUS;
  const bool bad = !std::isfinite(v) || (!cont && li.first > li.second);
  JM m;
  const bool built = trap::run([&] { m = JM(li, v, type); }) == trap::Returned;
  r.note([&] { return mc::cat("type ", (int)type, " limits ", li.first, "..", li.second, " value ", v); });
  if (built == bad) r.fail(built ? "accepted" : "refused");
  if (!built) return;
  const double want = cont ? wrap(v) : std::min(std::max(v, li.first), li.second);
  if (cont ? std::fabs(wrap(m.GetValue() - want)) > 1e-9 || std::fabs(m.GetValue()) > PI : m.GetValue() != want) r.fail(mc::cat("holds ", m.GetValue(), ", expected ", want));
  if (m.GetType() != type || m.IsContinuous() != cont || m.IsRevolute() != (cont || type == JM::REVOLUTE) || m.IsPrismatic() != (type == JM::PRISMATIC) || m.IsFixed() != (type == JM::FIXED)) r.fail("type queries disagree");
  if (!m.InLimits(m.GetValue())) r.fail("its own value is out of limits");
  if (m.InLimits(v) != (cont || (v >= li.first && v <= li.second))) r.fail("limit query disagrees");
  for (double u : V) {
    JM k = m;
    const bool ok = trap::run([&] { k.SetValue(u); }) == trap::Returned;
    if (ok != std::isfinite(u)) r.fail(mc::cat("setting ", u, ok ? " accepted" : " refused"));
    if (!ok && k.GetValue() != m.GetValue()) r.fail("a refused value changed the joint");
    if (ok && !k.InLimits(k.GetValue())) r.fail(mc::cat("setting ", u, " leaves the limits"));
    if (ok) {
      const JM c = m.CopyWithNewValue(u);
      if (c.GetValue() != k.GetValue() || c.GetType() != type || c.GetLimits() != m.GetLimits()) r.fail("a copy with a new value differs");
      if (std::fabs(m.Distance(k) - std::fabs(m.SignedDistance(k))) > 0 || std::fabs(m.Distance(k) - k.Distance(m)) > 1e-9) r.fail("joint distance is not symmetric");
    }
  }
  for (size_t off : {(size_t)0, (size_t)3}) {
    std::vector<uint8_t> b(off, 0xAA);
    const SimpleLinkedConfiguration c = {m, JM(), m};
    const uint64_t n = SimpleLinkedConfigSerializer::Serialize(c, b);
    if (b.size() != off + n) r.fail("serialized size disagrees");
    b.push_back(0x55);
    const auto q = SimpleLinkedConfigSerializer::Deserialize(b, off);
    if (q.second != n || q.first.size() != 3) r.fail("a configuration does not survive serialization");
    for (int i = 0; i < 3; i++)
      if (q.first[i].GetValue() != c[i].GetValue() || q.first[i].GetLimits() != c[i].GetLimits() || q.first[i].GetType() != c[i].GetType()) r.fail("a joint does not survive serialization");
  }
  r.step();
  r.state(mc::cat((int)type, li.first, m.GetValue()));
}
// ---- planar and free-flying robots
MC_SCENARIO(planar, "planar robot: all pairs of 3x3x9 configurations with 3 pairs of weights (a negative one too): pose, wrapped heading, distances, interpolation at 5 ratios, Jacobian against differences, serialization, clones, averages", 2) {
  typedef simple_se2_robot_model::SimpleSE2Configuration C;
  static const double XY[3] = {0, -1.5, 2}, TH[9] = {0, 0.7, -2.0, 3.0, -3.0, 4.0, -9.0, 3.13, -3.13};
  auto mk = [&](const char* w) {
    const double x = XY[r.choose(3, w)], y = XY[r.choose(3, w)], t = TH[r.choose(9, w)];
    return C(x, y, t);
  };
  const C a = mk("first"), b = mk("second");
  static const double W[3][2] = {{1, 1}, {-2, -0.5}, {0, 3}};
  const int wk = r.choose(3, "weights");
  simple_robot_models::SE2RobotWithGeometry<int> bot(a, W[wk][0], W[wk][1], "body", 7);
  r.note([&] { return mc::cat("from ", a.transpose(), " to ", b.transpose()); });
  auto verify = [&](const simple_se2_robot_model::SimpleSE2Robot& k, const C& c) {
    const C p = k.GetPosition();
    if (p(0) != c(0) || p(1) != c(1) || std::fabs(wrap(p(2) - c(2))) > 1e-9 || std::fabs(p(2)) > PI) r.fail(mc::cat("position is ", p.transpose()));
    const T3 want = mul(tr(c(0), c(1), 0), rot({{0, 0, 1}}, c(2)));
    if (gap(want, k.GetLinkTransform("body")) > 1e-9 || k.GetLinkTransforms().size() != 1 || gap(want, k.GetLinkTransforms()[0]) > 1e-9 || k.GetLinkTransformsMap().size() != 1 || gap(want, k.GetLinkTransformsMap().at("body")) > 1e-9) r.fail("the pose does not follow the configuration");
    if (trap::run([&] { k.GetLinkTransform("x"); }) == trap::Returned) r.fail("an unknown link has a pose");
  };
  verify(bot, a);
  std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<C, simple_se2_robot_model::SimpleSE2ConfigAlloc>> cl(bot.Clone());
  cl->SetPosition(b);
  verify(bot, a);
  verify(*dynamic_cast<simple_se2_robot_model::SimpleSE2Robot*>(cl.get()), b);
  const double dth = wrap(b(2) - a(2));
  const auto sd = bot.ComputePerDimensionConfigurationSignedDistance(a, b);
  if (sd.size() != 3 || std::fabs(sd(0) - (b(0) - a(0))) > 1e-12 || std::fabs(sd(1) - (b(1) - a(1))) > 1e-12 || std::fabs(wrap(sd(2) - dth)) > 1e-9 || std::fabs(sd(2)) > PI + 1e-9) r.fail("signed distance per dimension");
  const double want = std::hypot(b(0) - a(0), b(1) - a(1)) * std::fabs(W[wk][0]) + std::fabs(dth) * std::fabs(W[wk][1]);
  const double d = bot.ComputeConfigurationDistance(a, b), e = bot.ComputeConfigurationDistance(b, a);
  if (std::fabs(d - want) > 1e-9 || std::fabs(d - e) > 1e-9) r.fail(mc::cat("distance ", d, ", back ", e, ", expected ", want));
  for (int k = 0; k <= 4; k++) {
    const double t = k / 4.0;
    const C m = bot.InterpolateBetweenConfigurations(a, b, t);
    if (std::fabs(m(0) - interp(a(0), b(0), t)) > 1e-9 || std::fabs(m(1) - interp(a(1), b(1), t)) > 1e-9 || (std::fabs(wrap(m(2) - a(2) - dth * t)) > 1e-9 && std::fabs(std::fabs(dth) - PI) > 1e-9)) r.fail(mc::cat("at ratio ", t, " it is at ", m.transpose()));
  }
  const auto J = bot.ComputeLinkPointTranslationJacobian("body", Vector4d(0.3, -0.4, 0.2, 1));
  if (J.cols() != 3) r.fail("Jacobian has the wrong number of columns");
  for (int c = 0; c < 3; c++) {
    const double h = 1e-5;
    V3 hi, lo;
    for (int s = 0; s < 2; s++) {
      C q = a;
      q(c) += s ? -h : h;
      (s ? lo : hi) = app(mul(tr(q(0), q(1), 0), rot({{0, 0, 1}}, q(2))), {{0.3, -0.4, 0.2}});
    }
    for (int i = 0; i < 3; i++)
      if (std::fabs(J(i, c) - (hi[i] - lo[i]) / (2 * h)) > 1e-6) r.fail(mc::cat("Jacobian entry ", i, ",", c, " is ", J(i, c), ", the derivative is ", (hi[i] - lo[i]) / (2 * h)));
  }
  std::vector<uint8_t> buf(2, 9);
  const auto n = simple_se2_robot_model::SimpleSE2ConfigSerializer::Serialize(a, buf);
  const auto q = simple_se2_robot_model::SimpleSE2ConfigSerializer::Deserialize(buf, 2);
  if (buf.size() != n + 2 || q.second != n || q.first != a) r.fail("a configuration does not survive serialization");
  typedef std::vector<C, simple_se2_robot_model::SimpleSE2ConfigAlloc> Cs;
  const C av = bot.AverageConfigurations(Cs{a, b, b});
  if (std::fabs(av(0) - (a(0) + 2 * b(0)) / 3) > 1e-9 || std::fabs(av(1) - (a(1) + 2 * b(1)) / 3) > 1e-9) r.fail("average position");
  if ((bot.AverageConfigurations(Cs{a}) - a).norm() > 1e-9) r.fail("the average of one configuration is another");
  r.step();
  r.state(mc::cat(a.transpose(), "/", b.transpose(), wk));
}
MC_SCENARIO(freeflying, "free-flying robot: all pairs of 27 poses with 3 pairs of weights: pose, distances, interpolation at 5 ratios, body-frame Jacobian against differences, serialization, clones, averages", 2) {
  static const V3 P[3] = {{{0, 0, 0}}, {{1, -2, 0.5}}, {{-0.3, 0.4, 2}}};
  static const V3 R[9] = {{{0, 0, 0}}, {{1, 0, 0}}, {{0, 1.2, 0}}, {{0, 0, -2.5}}, {{3.0, 0, 0}}, {{0.5, -0.6, 0.7}}, {{0, 0, PI}}, {{-1.5, 1, 3}}, {{2, -1.4, 0.1}}};
  const int pa = r.choose(3, "place"), ra = r.choose(9, "orientation"), pb = r.choose(3, "place"), rb = r.choose(9, "orientation");
  const T3 A = mul(tr(P[pa][0], P[pa][1], P[pa][2]), rpy(R[ra][0], R[ra][1], R[ra][2])), B = mul(tr(P[pb][0], P[pb][1], P[pb][2]), rpy(R[rb][0], R[rb][1], R[rb][2]));
  static const double W[3][2] = {{1, 1}, {-2, -0.5}, {0, 3}};
  const int wk = r.choose(3, "weights");
  simple_robot_models::SE3RobotWithGeometry<int> bot(iso(A), W[wk][0], W[wk][1], "body", 7);
  r.note([&] { return mc::cat("pose ", pa, ",", ra, " to ", pb, ",", rb); });
  auto verify = [&](const simple_se3_robot_model::SimpleSE3Robot& k, const T3& c) {
    if (gap(c, k.GetPosition()) > 0 || gap(c, k.GetLinkTransform("body")) > 0 || gap(c, k.GetLinkTransforms().at(0)) > 0 || gap(c, k.GetLinkTransformsMap().at("body")) > 0) r.fail("the pose does not follow the configuration");
    if (trap::run([&] { k.GetLinkTransform("x"); }) == trap::Returned) r.fail("an unknown link has a pose");
  };
  verify(bot, A);
  std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<Isometry3d, simple_se3_robot_model::SimpleSE3ConfigAlloc>> cl(bot.Clone());
  cl->SetPosition(iso(B));
  verify(bot, A);
  verify(*dynamic_cast<simple_se3_robot_model::SimpleSE3Robot*>(cl.get()), B);
  const T3 rel = mul(inv(A), B);
  const double trc = rel.R[0][0] + rel.R[1][1] + rel.R[2][2];
  const double sx = rel.R[2][1] - rel.R[1][2], sy = rel.R[0][2] - rel.R[2][0], sz = rel.R[1][0] - rel.R[0][1];
  const double ang = std::atan2(std::sqrt(sx * sx + sy * sy + sz * sz), trc - 1);
  const double lin = std::sqrt((A.p[0] - B.p[0]) * (A.p[0] - B.p[0]) + (A.p[1] - B.p[1]) * (A.p[1] - B.p[1]) + (A.p[2] - B.p[2]) * (A.p[2] - B.p[2]));
  const auto sd = bot.ComputePerDimensionConfigurationSignedDistance(iso(A), iso(B));
  if (sd.size() != 4 || std::fabs(sd(0) - (B.p[0] - A.p[0])) > 1e-12 || std::fabs(sd(1) - (B.p[1] - A.p[1])) > 1e-12 || std::fabs(sd(2) - (B.p[2] - A.p[2])) > 1e-12 || std::fabs(sd(3) - ang) > 1e-6) r.fail("distance per dimension");
  const double want = lin * std::fabs(W[wk][0]) + ang * std::fabs(W[wk][1]);
  const double d = bot.ComputeConfigurationDistance(iso(A), iso(B)), e = bot.ComputeConfigurationDistance(iso(B), iso(A));
  if (std::fabs(d - want) > 1e-6 || std::fabs(d - e) > 1e-9) r.fail(mc::cat("distance ", d, ", back ", e, ", expected ", want));
  for (int k = 0; k <= 4; k++) {
    const double t = k / 4.0;
    const Isometry3d m = bot.InterpolateBetweenConfigurations(iso(A), iso(B), t);
    for (int i = 0; i < 3; i++)
      if (std::fabs(m.matrix()(i, 3) - interp(A.p[i], B.p[i], t)) > 1e-9) r.fail("the interpolated position leaves the segment");
    if (std::fabs(bot.ComputePerDimensionConfigurationSignedDistance(iso(A), m)(3) - ang * t) > 1e-5) r.fail(mc::cat("at ratio ", t, " the interpolated orientation is not that far along"));
    if (std::fabs(bot.ComputePerDimensionConfigurationSignedDistance(iso(B), m)(3) - ang * (1 - t)) > 1e-5) r.fail(mc::cat("at ratio ", t, " the interpolated orientation is off the shortest rotation"));
  }
  const V3 pt = {{0.3, -0.4, 0.2}};
  const auto J = bot.ComputeLinkPointTranslationJacobian("body", Vector4d(pt[0], pt[1], pt[2], 1));
  if (J.cols() != 6) r.fail("Jacobian has the wrong number of columns");
  for (int c = 0; c < 6; c++) {
    const double h = 1e-5;
    V3 o[2];
    for (int s = 0; s < 2; s++) {
      const double g = s ? -h : h;
      o[s] = app(mul(A, c < 3 ? tr(c == 0 ? g : 0, c == 1 ? g : 0, c == 2 ? g : 0) : rot({{c == 3 ? 1. : 0., c == 4 ? 1. : 0., c == 5 ? 1. : 0.}}, g)), pt);
    }
    for (int i = 0; i < 3; i++)
      if (std::fabs(J(i, c) - (o[0][i] - o[1][i]) / (2 * h)) > 1e-6) r.fail(mc::cat("Jacobian entry ", i, ",", c, " is ", J(i, c), ", the derivative is ", (o[0][i] - o[1][i]) / (2 * h)));
  }
  std::vector<uint8_t> buf(2, 9);
  const auto n = simple_se3_robot_model::SimpleSE3ConfigSerializer::Serialize(iso(A), buf);
  const auto q = simple_se3_robot_model::SimpleSE3ConfigSerializer::Deserialize(buf, 2);
  if (buf.size() != n + 2 || q.second != n || q.first.matrix() != iso(A).matrix()) r.fail("a configuration does not survive serialization");
  EigenHelpers::VectorIsometry3d cs;
  cs.push_back(iso(A));
  if (gap(A, bot.AverageConfigurations(cs)) > 1e-9) r.fail("the average of one configuration is another");
  cs.push_back(iso(B));
  const Isometry3d av = bot.AverageConfigurations(cs);
  for (int i = 0; i < 3; i++)
    if (std::fabs(av.matrix()(i, 3) - (A.p[i] + B.p[i]) / 2) > 1e-9) r.fail("average position");
  if (ang < 2.8) {
    if (std::fabs(bot.ComputePerDimensionConfigurationSignedDistance(iso(A), av)(3) - ang / 2) > 1e-5) r.fail("average orientation of two is not half way");
  }
  r.step();
  r.state(mc::cat(pa, ra, pb, rb, wk));
}
MC_SCENARIO(nearby, "configurations of each kind of robot 1e-2 .. 1e-7 apart in place, heading or joint value (one or all of them), from several starting configurations including headings and joints next to half a turn, 3 pairs of weights: distances, interpolation at 5 ratios and averages of two keep the small difference", 2) {
  static const double D[6] = {1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7};
  static const double W[3][2] = {{1, 1}, {2, -0.5}, {0, 3}};
  const double dd = D[r.choose(6, "difference")];
  const int wk = r.choose(3, "weights"), kind = r.choose(3, "planar / free-flying / linked");
  const double wp = std::fabs(W[wk][0]), wr = std::fabs(W[wk][1]);
  r.note([&] { return mc::cat("difference ", dd, " weights ", wp, " ", wr, " kind ", kind); });
  if (kind == 0) {
    typedef simple_se2_robot_model::SimpleSE2Configuration C;
    const double th = std::vector<double>{0, 0.7, -2.0, PI - dd / 3, -PI + dd / 4}[(size_t)r.choose(5, "heading")];
    const int what = r.choose(4, "x / y / heading / all");
    C a(1.5, -2, th), b = a;
    for (int i = 0; i < 3; i++)
      if (what == i || what == 3) b(i) += i == 1 ? -dd : dd;
    simple_se2_robot_model::SimpleSE2Robot bot(a, W[wk][0], W[wk][1], "body");
    const double lin = what < 2 ? dd : what == 2 ? 0 : dd * std::sqrt(2.0), ang = what < 2 ? 0 : dd;
    const double got = bot.ComputeConfigurationDistance(a, b), back = bot.ComputeConfigurationDistance(b, a);
    if (!(std::fabs(got - lin * wp - ang * wr) <= 1e-13) || !(std::fabs(back - got) <= 1e-13)) r.fail(mc::cat("distance ", got, ", back ", back, ", expected ", lin * wp + ang * wr));
    const auto sd = bot.ComputePerDimensionConfigurationSignedDistance(a, b);
    for (int i = 0; i < 3; i++)
      if (!(std::fabs(sd(i) - (what == i || what == 3 ? (i == 1 ? -dd : dd) : 0)) <= 1e-13)) r.fail(mc::cat("signed distance ", i, " is ", sd(i)));
    for (int k = 0; k <= 4; k++) {
      const C m = bot.InterpolateBetweenConfigurations(a, b, k / 4.0);
      for (int i = 0; i < 3; i++) {
        const double e = m(i) - a(i) - (what == i || what == 3 ? (i == 1 ? -dd : dd) : 0) * k / 4;
        if (!(std::fabs(i == 2 ? wrap(e) : e) <= 1e-13)) r.fail(mc::cat("interpolation at ", k / 4.0, " entry ", i, " off by ", e));
      }
    }
    r.state(mc::cat(dd, wk, th, what));
  } else if (kind == 1) {
    static const V3 R[4] = {{{0, 0, 0}}, {{0.5, -0.6, 0.7}}, {{0, 0, PI}}, {{-1.5, 1, 3}}};
    const int ra = r.choose(4, "orientation"), what = r.choose(3, "place / orientation / both"), axis = r.choose(3, "axis");
    const V3 ax = {{axis == 0 ? 1. : 0., axis == 1 ? -1. : 0., axis == 2 ? 1. : 0.}};
    const T3 A = mul(tr(1.5, -2, 0.25), rpy(R[ra][0], R[ra][1], R[ra][2]));
    T3 B = what == 0 ? A : mul(A, rot(ax, dd));
    if (what != 1) B.p[(size_t)axis] += dd;
    simple_se3_robot_model::SimpleSE3Robot bot(iso(A), W[wk][0], W[wk][1], "body");
    const double lin = what == 1 ? 0 : dd, ang = what == 0 ? 0 : dd;
    // the angle comes out of an arc cosine: good to a few 1e-8
    const double tol = 6e-8 * (1 + wr);
    const double got = bot.ComputeConfigurationDistance(iso(A), iso(B)), back = bot.ComputeConfigurationDistance(iso(B), iso(A));
    if (!(std::fabs(got - lin * wp - ang * wr) <= tol) || !(std::fabs(back - got) <= 1e-13)) r.fail(mc::cat("distance ", got, ", back ", back, ", expected ", lin * wp + ang * wr));
    const auto sd = bot.ComputePerDimensionConfigurationSignedDistance(iso(A), iso(B));
    for (int i = 0; i < 3; i++)
      if (!(std::fabs(sd(i) - (what != 1 && i == axis ? dd : 0)) <= 1e-13)) r.fail(mc::cat("signed distance ", i, " is ", sd(i)));
    if (!(std::fabs(sd(3) - ang) <= tol)) r.fail(mc::cat("angle ", sd(3), ", expected ", ang));
    EigenHelpers::VectorIsometry3d two;
    two.push_back(iso(A));
    two.push_back(iso(B));
    for (int k = 0; k <= 5; k++) {
      const double t = k == 5 ? 0.5 : k / 4.0;
      const Isometry3d m = k == 5 ? bot.AverageConfigurations(two) : bot.InterpolateBetweenConfigurations(iso(A), iso(B), t);
      T3 want = what == 0 ? A : mul(A, rot(ax, dd * t));
      if (what != 1) want.p[(size_t)axis] += dd * t;
      if (!(gap(want, m) <= 1e-9 * dd + 2e-14)) r.fail(mc::cat(k == 5 ? "average" : "interpolation", " at ", t, " off by ", gap(want, m)));
    }
    r.state(mc::cat(dd, wk, ra, what, axis));
  } else {
    Arm a;
    a.n = 3;
    a.parent = {0, 0, 1};
    a.order = {1, 2};
    a.type = {3, r.choose(3, "type"), r.choose(3, "type")};
    const int what = r.choose(3, "first / second / both"), at = r.choose(4, "where");
    std::vector<double> x(3), y(3);
    for (int l = 1; l < 3; l++) {
      x[l] = held(a, l, std::vector<double>{0.0, -0.6, 0.25, PI - dd / 3}[(size_t)at]);
      y[l] = what == 2 || what == l - 1 ? held(a, l, x[l] + (TYPES[a.type[l]] == JM::CONTINUOUS || x[l] + dd < 0.5 ? dd : -dd)) : x[l];
    }
    SimpleLinkedRobot bot(iso(basepose(1)), links(a), joints(a), cfg(a, x), {W[wk][0], W[wk][1]});
    const auto cx = cfg(a, x), cy = cfg(a, y);
    const auto sd = bot.ComputePerDimensionConfigurationSignedDistance(cx, cy);
    double sum = 0;
    for (int i = 0; i < 2; i++) {
      const double d = TYPES[a.type[i + 1]] == JM::CONTINUOUS ? wrap(y[i + 1] - x[i + 1]) : y[i + 1] - x[i + 1], w = i ? wr : wp;
      if (!(std::fabs(sd(i) - d * w) <= 1e-14)) r.fail(mc::cat("signed distance of joint ", i, " is ", sd(i), ", expected ", d * w));
      sum += d * d * w * w;
    }
    const double got = bot.ComputeConfigurationDistance(cx, cy);
    if (!(std::fabs(got - std::sqrt(sum)) <= 1e-14)) r.fail(mc::cat("distance ", got, ", expected ", std::sqrt(sum)));
    for (int k = 0; k <= 4; k++) {
      const auto m = bot.InterpolateBetweenConfigurations(cx, cy, k / 4.0);
      for (int i = 0; i < 2; i++) {
        const double d = TYPES[a.type[i + 1]] == JM::CONTINUOUS ? wrap(y[i + 1] - x[i + 1]) : y[i + 1] - x[i + 1];
        const double e = m[(size_t)i].GetValue() - x[i + 1] - d * k / 4;
        if (!(std::fabs(TYPES[a.type[i + 1]] == JM::CONTINUOUS ? wrap(e) : e) <= 2e-15)) r.fail(mc::cat("interpolation at ", k / 4.0, " joint ", i, " off by ", e));
      }
    }
    r.state(mc::cat(dd, wk, a.str(), what, at));
  }
  r.step();
}
MC_SCENARIO(selfcollision, "robots of 1 to 4 links with every list of up to 2 (thorough 3) allowed pairs over indices 0 to 4: symmetric, reflexive, exactly the listed pairs; bad indices and mismatched geometry refused", 2) {
  const int n = r.choose(4, "links") + 1;
  Arm a;
  a.n = n;
  for (int i = 0; i < n; i++) {
    a.parent.push_back(i ? i - 1 : 0);
    if (i) a.order.push_back(i);
    a.type.push_back(3);
  }
  std::vector<std::pair<size_t, size_t>> al;
  const int m = r.choose(r.bound(2, 3) + 1, "pairs");
  bool bad = false;
  for (int i = 0; i < m; i++) {
    const size_t p = (size_t)r.choose(n + 1, "a"), q = (size_t)r.choose(n + 1, "b");
    al.push_back({p, q});
    bad |= (int)p >= n || (int)q >= n;
  }
  typedef simple_robot_models::LinkedRobotWithGeometry<std::string> Bot;
  std::vector<std::pair<std::string, std::string>> g;
  for (int i = 0; i < n; i++) g.push_back({mc::cat("L", i), mc::cat("mesh", i)});
  std::unique_ptr<Bot> bot;
  auto make = [&] { bot.reset(new Bot(Isometry3d::Identity(), links(a), joints(a), SimpleLinkedConfiguration(), std::vector<double>(), g, al)); };
  r.note([&] { return mc::cat(n, " links, allowed ", [&] { std::string t; for (auto& x : al) t += mc::cat(x.first, "-", x.second, " "); return t; }()); });
  const bool built = trap::run(make) == trap::Returned;
  if (built == bad) r.fail(built ? "a bad index was accepted" : "good indices were refused");
  r.step();
  r.state(mc::cat(n, bad, m));
  if (!built) return;
  std::unique_ptr<simple_robot_model_interface::SimpleRobotModelInterface<SimpleLinkedConfiguration, SimpleLinkedConfigAlloc>> cl(bot->Clone());
  const Bot* both[2] = {bot.get(), dynamic_cast<Bot*>(cl.get())};
  for (const Bot* k : both) {
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++) {
        bool want = i == j;
        for (auto& x : al) want |= ((int)x.first == i && (int)x.second == j) || ((int)x.first == j && (int)x.second == i);
        if (k->CheckIfSelfCollisionAllowed((size_t)i, (size_t)j) != want) r.fail(mc::cat("self collision of ", i, " and ", j, want ? " is not allowed" : " is allowed"));
      }
    if (k->GetLinkGeometries() != g) r.fail("link geometries changed");
    if (trap::run([&] { k->CheckIfSelfCollisionAllowed((size_t)n, 0); }) == trap::Returned || trap::run([&] { k->CheckIfSelfCollisionAllowed(0, (size_t)n); }) == trap::Returned) r.fail("a link that does not exist may collide");
  }
  g[0].first = "other";
  if (trap::run(make) == trap::Returned) r.fail("geometry of another link was accepted");
  g.pop_back();
  if (trap::run(make) == trap::Returned) r.fail("a missing geometry was accepted");
}
// ---- fixed arms: published joint frames (translation, fixed-axis roll pitch yaw) and joint axis, link by link
struct Frame {
  double x, y, z, r, p, w;
  char axis;  // x y z, or 'f' for a fixed joint
};
static T3 step(const Frame& f, double q) {
  const T3 o = mul(tr(f.x, f.y, f.z), rpy(f.r, f.p, f.w));
  if (f.axis == 'f') return o;
  return mul(o, rot({{f.axis == 'x' ? 1. : 0., f.axis == 'y' ? 1. : 0., f.axis == 'z' ? 1. : 0.}}, q));
}
static const double H = PI / 2;
static const std::vector<Frame> IIWA7 = {{0, 0, .15, 0, 0, 0, 'z'}, {0, 0, .19, H, 0, PI, 'z'}, {0, .21, 0, H, 0, PI, 'z'}, {0, 0, .19, H, 0, 0, 'z'}, {0, .21, 0, -H, PI, 0, 'z'}, {0, .0607, .19, H, 0, 0, 'z'}, {0, .081, .0607, -H, PI, 0, 'z'}};
static const std::vector<Frame> IIWA14 = {{0, 0, .1575, 0, 0, 0, 'z'}, {0, 0, .2025, H, 0, PI, 'z'}, {0, .2045, 0, H, 0, PI, 'z'}, {0, 0, .2155, H, 0, 0, 'z'}, {0, .1845, 0, -H, PI, 0, 'z'}, {0, 0, .2155, H, 0, 0, 'z'}, {0, .081, 0, -H, PI, 0, 'z'}};
static const std::vector<Frame> UR10 = {{0, 0, .1273, 0, 0, 0, 'z'}, {0, .220941, 0, 0, H, 0, 'y'}, {0, -.1719, .612, 0, 0, 0, 'y'}, {0, 0, .5723, 0, H, 0, 'y'}, {0, .1149, 0, 0, 0, 0, 'z'}, {0, 0, .1157, 0, 0, 0, 'y'}};
static const std::vector<Frame> ABB = {{0, 0, .1245, 0, 0, 0, 'z'}, {.15, -.1395, .362, 0, 0, 0, 'y'}, {0, .028, .7, 0, 0, 0, 'y'}, {.314, .107, 0, 0, 0, 0, 'x'}, {.286, 0, 0, 0, 0, 0, 'y'}, {0, 0, 0, 0, 0, 0, 'x'}, {.065, 0, 0, 0, H, 0, 'f'}};
typedef EigenHelpers::VectorIsometry3d VI;
typedef EigenHelpers::MapStringIsometry3d MI;
typedef std::map<std::string, double> MD;
struct ArmApi {
  std::vector<Frame> frames;
  size_t dof;
  std::vector<std::string> joint, link;
  std::function<VI(const std::vector<double>&, const Isometry3d*)> vv;
  std::function<VI(const MD&, const Isometry3d*)> vm;
  std::function<MI(const std::vector<double>&, const Isometry3d*)> mv;
  std::function<MI(const MD&, const Isometry3d*)> mm;
};
#define API(NS, F, DOF, J, L)                                                                               \
  ArmApi {                                                                                                  \
    F, DOF, J, L, [](const std::vector<double>& q, const Isometry3d* b) { return b ? NS::GetLinkTransforms(q, *b) : NS::GetLinkTransforms(q); }, \
        [](const MD& q, const Isometry3d* b) { return b ? NS::GetLinkTransforms(q, *b) : NS::GetLinkTransforms(q); },                            \
        [](const std::vector<double>& q, const Isometry3d* b) { return b ? NS::GetLinkTransformsMap(q, *b) : NS::GetLinkTransformsMap(q); },     \
        [](const MD& q, const Isometry3d* b) { return b ? NS::GetLinkTransformsMap(q, *b) : NS::GetLinkTransformsMap(q); }                       \
  }
typedef std::vector<std::string> VS;
static std::vector<std::string> num(const std::string& p, int a, int b) {
  VS v;
  for (int i = a; i <= b; i++) v.push_back(mc::cat(p, i));
  return v;
}
static const ArmApi& api(int k) {
  static const std::vector<ArmApi> all = {
      API(IIWA_7_FK_FAST, IIWA7, 7, num("iiwa_joint_", 1, 7), num("iiwa_link_", 0, 7)),
      API(IIWA_14_FK_FAST, IIWA14, 7, num("iiwa_joint_", 1, 7), num("iiwa_link_", 0, 7)),
      API(UR_10_FK_FAST, UR10, 6, (VS{"shoulder_pan_joint", "shoulder_lift_joint", "elbow_joint", "wrist_1_joint", "wrist_2_joint", "wrist_3_joint"}), (VS{"base_link", "shoulder_link", "upper_arm_link", "forearm_link", "wrist_1_link", "wrist_2_link", "wrist_3_link"})),
      API(ABB_IRB1600_145_FK_FAST, ABB, 6, num("joint_", 1, 6), num("link_", 0, 7))};
  return all[(size_t)k];
}
MC_SCENARIO(arms, "four fixed arms (iiwa 7 and 14, UR10, IRB1600): every combination of 3 (thorough 4) values per joint, with and without a base: vector and map forms, link names, and every pose equal the published chain of joint frames; joints left out count as zero", 3) {
  const ArmApi& A = api(r.choose(4, "arm"));
  static const double Q[4] = {0, 0.9, -2.3, 4.0};
  std::vector<double> q;
  MD m;
  const int k = r.bound(3, 4);
  for (size_t j = 0; j < A.dof; j++) {
    const int c = r.choose(k, "joint");
    q.push_back(Q[c]);
    if (c) m[A.joint[j]] = Q[c];
  }
  const bool b = r.flip("base");
  const T3 base = b ? basepose(1) : ident();
  const Isometry3d bi = iso(base);
  const VI v = A.vv(q, b ? &bi : nullptr), w = A.vm(m, b ? &bi : nullptr);
  const MI x = A.mv(q, b ? &bi : nullptr), y = A.mm(m, b ? &bi : nullptr);
  r.note([&] { return mc::cat("arm with ", A.dof, " joints at ", mc::str(q)); });
  const size_t n = A.frames.size() + 1;
  if (v.size() != n || w.size() != n || x.size() != n || y.size() != n) r.fail("wrong number of links");
  T3 t = base;
  for (size_t l = 0; l < n; l++) {
    if (l) t = mul(t, step(A.frames[l - 1], l - 1 < A.dof ? q[l - 1] : 0));
    if (gap(t, v[l]) > 1e-9) r.fail(mc::cat("pose of ", A.link[l], " is off by ", gap(t, v[l])));
    if (gap(t, w[l]) > 1e-9) r.fail(mc::cat("pose of ", A.link[l], " from named joints is off"));
    if (!x.count(A.link[l]) || !y.count(A.link[l])) r.fail("no pose for " + A.link[l]);
    if (gap(t, x.at(A.link[l])) > 1e-9 || gap(t, y.at(A.link[l])) > 1e-9) r.fail(mc::cat("pose of ", A.link[l], " by name is off"));
  }
  r.step();
  r.state(mc::cat(A.dof, b, mc::str(q)));
}
