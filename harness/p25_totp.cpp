// P25: time-optimal trajectory parametrization.
#include "trap.hpp"

#include <arc_utilities/time_optimal_trajectory_parametrization.hpp>
#include <memory>

namespace totp = time_optimal_trajectory_parametrization;
typedef Eigen::VectorXd V;

// --- reference geometry: straight pieces joined by circular blends
struct Piece {
  double at, len, radius;  // radius 0: straight
  V a, x, y;               // start and direction, or centre and two axes
};
struct Ref {
  std::vector<Piece> pieces;
  double length = 0;
  Ref(const std::vector<V>& p, double dev) {
    V from = p[0];
    auto line = [&](const V& to) {
      const double l = (to - from).norm();
      if (l > 1e-6) pieces.push_back(Piece{length, l, 0, from, (to - from) / l, V()}), length += l;
      from = to;
    };
    for (size_t i = 1; i + 1 < p.size() && dev > 0; i++) {
      const V u = (p[i] - p[i - 1]).normalized(), v = (p[i + 1] - p[i]).normalized();
      const double half = 0.5 * std::acos(std::max(-1.0, std::min(1.0, u.dot(v))));
      if (half < 1e-6) {
        line(p[i]);
        continue;
      }
      double d = 0.5 * std::min((p[i] - p[i - 1]).norm(), (p[i + 1] - p[i]).norm());
      d = std::min(d, dev * std::sin(half) / (1 - std::cos(half)));
      const double R = d / std::tan(half);
      line(p[i] - d * u);
      const V c = p[i] + (v - u).normalized() * (R / std::cos(half));
      pieces.push_back(Piece{length, 2 * half * R, R, c, (from - c) / R, u});
      length += 2 * half * R;
      from = p[i] + d * v;
    }
    if (!(dev > 0))
      for (size_t i = 1; i + 1 < p.size(); i++) line(p[i]);
    line(p.back());
  }
  const Piece& piece(double s) const {
    size_t i = 0;
    while (i + 1 < pieces.size() && s >= pieces[i + 1].at) i++;
    return pieces[i];
  }
  V pos(double s) const {
    const Piece& q = piece(s);
    s -= q.at;
    if (q.radius == 0) return q.a + s * q.x;
    return q.a + q.radius * (q.x * std::cos(s / q.radius) + q.y * std::sin(s / q.radius));
  }
  V dir(double s) const {
    const Piece& q = piece(s);
    s -= q.at;
    if (q.radius == 0) return q.x;
    return -q.x * std::sin(s / q.radius) + q.y * std::cos(s / q.radius);
  }
  V curv(double s) const {
    const Piece& q = piece(s);
    s -= q.at;
    if (q.radius == 0) return V::Zero(q.a.rows());
    return -(q.x * std::cos(s / q.radius) + q.y * std::sin(s / q.radius)) / q.radius;
  }
  bool near_joint(double s, double tol) const {
    for (auto& q : pieces)
      if (std::fabs(s - q.at) < tol) return true;
    return false;
  }
};

// --- reference optimum: controllable sets backwards, greedy forwards, over a grid of the path
struct Limits {
  std::vector<double> vel, acc;
};
static double optimum(const Ref& path, const Limits& lim, int per_piece) {
  std::vector<double> at, step;
  for (auto& q : path.pieces)
    for (int i = 0; i < per_piece; i++) at.push_back(q.at + q.len * (i + 0.5) / per_piece), step.push_back(q.len / per_piece);
  const int N = (int)at.size();
  const size_t dim = lim.vel.size();
  struct Row {
    double a, b, c;  // a*u + b*x <= c
  };
  // constraints of interval i, taken at its middle
  auto rows = [&](int i) {
    std::vector<Row> r;
    const double s = at[(size_t)i];
    const V q = path.dir(s), k = path.curv(s);
    for (size_t j = 0; j < dim; j++) {
      r.push_back({q((long)j), k((long)j), lim.acc[j]});
      r.push_back({-q((long)j), -k((long)j), lim.acc[j]});
      if (q((long)j) != 0) r.push_back({0, 1, std::pow(lim.vel[j] / q((long)j), 2)});
    }
    r.push_back({0, -1, 0});
    return r;
  };
  std::vector<double> hi((size_t)N + 1, 0), lo((size_t)N + 1, 0);
  std::vector<std::vector<Row>> R((size_t)N);
  for (int i = N - 1; i >= 0; i--) {
    auto& r = R[(size_t)i];
    r = rows(i);
    const double D = step[(size_t)i];
    r.push_back({2 * D, 1, hi[(size_t)i + 1]});
    r.push_back({-2 * D, -1, -lo[(size_t)i + 1]});
    double best = -1, least = 1e300;
    for (size_t a = 0; a < r.size(); a++)
      for (size_t b = a + 1; b < r.size(); b++) {
        const double det = r[a].a * r[b].b - r[a].b * r[b].a;
        if (std::fabs(det) < 1e-14) continue;
        const double u = (r[a].c * r[b].b - r[a].b * r[b].c) / det, x = (r[a].a * r[b].c - r[a].c * r[b].a) / det;
        bool ok = true;
        for (auto& k : r) ok &= k.a * u + k.b * x <= k.c + 1e-9 * (1 + std::fabs(k.c));
        if (ok) best = std::max(best, x), least = std::min(least, x);
      }
    if (best < 0) return -1;
    hi[(size_t)i] = best;
    lo[(size_t)i] = std::max(0.0, least);
  }
  double x = 0, T = 0;
  for (int i = 0; i < N; i++) {
    double u = 1e300;
    const double D = step[(size_t)i];
    for (auto& k : R[(size_t)i])
      if (k.a > 1e-12) u = std::min(u, (k.c - k.b * x) / k.a);
    const double nx = std::max(0.0, x + 2 * D * u);
    T += 2 * D / (std::sqrt(x) + std::sqrt(nx) + 1e-12);
    x = nx;
  }
  return T;
}

static const int LAT[9][2] = {{0, 0}, {1, 0}, {1, 1}, {0, 1}, {-1, 1}, {-1, 0}, {-1, -1}, {0, -1}, {1, -1}};
// a waypoint path: steps between points of a lattice, no repeated points and no reversals
static std::vector<V> waypoints(mc::Run& r, int min, int max, bool lengths) {
  const int n = min + r.choose(max - min + 1, "waypoints");
  std::vector<V> p{Eigen::Vector2d(0.5, -1)};
  for (int i = 1; i < n; i++) {
    const int* d = LAT[1 + r.choose(8, "direction")];
    const double k = lengths && r.flip("long step") ? 1.7 : 0.4;
    p.push_back(p.back() + k * Eigen::Vector2d(d[0], d[1]));
    if (i >= 2 && (p[(size_t)i] - p[(size_t)i - 1]).normalized().dot((p[(size_t)i - 1] - p[(size_t)i - 2]).normalized()) < -0.99) throw mc::Prune();
  }
  return p;
}
static std::string show(const std::vector<V>& p) {
  std::string s;
  for (auto& q : p) {
    s += "(";
    for (long i = 0; i < q.rows(); i++) s += mc::cat(i ? " " : "", q(i));
    s += ")";
  }
  return s;
}
static std::list<V> list(const std::vector<V>& p) { return std::list<V>(p.begin(), p.end()); }

static void judge_path(mc::Run& r, const std::vector<V>& p, double dev) {
  const Ref ref(p, dev);
  std::unique_ptr<totp::Path> made(new totp::Path(list(p), dev)), other(new totp::Path(list({p[1], p[0]}), dev));
  std::vector<std::pair<const char*, totp::Path*>> all{{"", made.get()}};
  totp::Path copy(*made), assigned(*other);
  assigned = *made;
  totp::Path replaced(*made);
  replaced = *other;
  *other = *made;
  V far = p[0];
  far(0) += 3;
  V away = far;
  away(1) -= 2;
  totp::Path cornered(list({p[0], far, away, p[0]}), 0.3);
  cornered = *made;
  all.push_back({" (copied)", &copy});
  all.push_back({" (assigned)", &assigned});
  all.push_back({" (replacing)", other.get()});
  all.push_back({" (assigned over a path with corners)", &cornered});
  const std::string at = mc::cat(show(p), " deviation ", dev);
  if (std::fabs(replaced.Length() - (p[1] - p[0]).norm()) > 1e-9 || (replaced.GetConfig(0) - p[1]).norm() > 1e-9) r.fail(at + ": assigning another path did not take");
  std::vector<double> dist(p.size(), 1e9);
  std::list<std::pair<double, bool>> switching;
  for (int which = 0; which < (int)all.size(); which++) {
    if (which == 1) made.reset();
    const totp::Path& q = *all[(size_t)which].second;
    if (which == 1) all[0].second = nullptr;
    auto bad = [&](const std::string& what, double s) { r.fail(mc::cat(at, all[(size_t)which].first, " at ", s, ": ", what)); };
    const auto sw = q.SwitchingPoints();
    if (which == 0) {
      switching = sw;
      // in order, within the path, and the discontinuities are where the pieces meet
      double before = 0;
      std::vector<double> jumps, joints;
      for (auto& e : sw) {
        if (!(e.first >= before - 1e-12) || e.first > q.Length() + 1e-9) bad("switching points out of order or outside", e.first);
        before = e.first;
        if (e.second) jumps.push_back(e.first);
      }
      for (auto& piece : ref.pieces)
        if (piece.at > 1e-9 && (joints.empty() || piece.at - joints.back() > 1e-6) && piece.at < ref.length - 1e-6) joints.push_back(piece.at);
      for (double j : joints) {
        bool found = false;
        for (double k : jumps) found |= std::fabs(j - k) < 1e-5;
        if (!found) bad("the joint of two pieces is no switching point", j);
      }
      for (double k : jumps) {
        bool found = k < 1e-5 || k > ref.length - 1e-5;
        for (double j : joints) found |= std::fabs(j - k) < 1e-5;
        if (!found) bad("a discontinuity where no pieces meet", k);
      }
    } else if (sw != switching)
      bad("other switching points than the original", 0);
    if (std::fabs(q.Length() - ref.length) > 1e-5) bad(mc::cat("length ", q.Length(), " not ", ref.length), 0);
    if ((q.GetConfig(0) - p[0]).norm() > 1e-6 || (q.GetConfig(q.Length()) - p.back()).norm() > 1e-5) bad("ends elsewhere", 0);
    const int N = 60;
    for (int i = 0; i <= N; i++) {
      const double s = ref.length * i / N;
      r.step();
      const V c = q.GetConfig(s);
      if ((c - ref.pos(s)).norm() > 1e-5) bad(mc::cat("position off by ", (c - ref.pos(s)).norm()), s);
      for (size_t j = 0; j < p.size(); j++) dist[j] = std::min(dist[j], (c - p[j]).norm());
      if (ref.near_joint(s, 1e-4)) continue;
      const V t = q.GetTangent(s), k = q.GetCurvature(s);
      if ((t - ref.dir(s)).norm() > 1e-5) bad("direction", s);
      if ((k - ref.curv(s)).norm() > 1e-4 * (1 + ref.curv(s).norm())) bad("curvature", s);
    }
    for (size_t j = 0; j < p.size(); j++)
      if (dist[j] > dev + ref.length / N + 1e-5) bad(mc::cat("waypoint ", j, " missed by ", dist[j]), 0);
    // switching points: joints between pieces are discontinuities, extreme points of arcs are not
    double s = -1;
    int guard = 0, joints = 0;
    const auto sp = q.SwitchingPoints();
    for (auto& x : sp) joints += x.second;
    if (joints != (int)ref.pieces.size() - 1 && dev > 0) {
      bool flat = false;  // collinear corners make empty blends
      for (size_t i = 1; i + 1 < p.size(); i++) flat |= (p[i] - p[i - 1]).normalized().dot((p[i + 1] - p[i]).normalized()) > 1 - 1e-9;
      if (!flat) bad(mc::cat(joints, " joints, not ", ref.pieces.size() - 1), 0);
    }
    for (auto x = sp.begin(); x != sp.end(); ++x) {
      bool disc = false;
      if (x->first <= s) continue;
      const double nx = q.GetNextSwitchingPoint(s, disc);
      if (nx != x->first || disc != x->second) bad("next switching point", s);
      if (x->second && !ref.near_joint(x->first, 1e-4)) bad("joint where there is none", x->first);
      if (!x->second) {  // one coordinate is momentarily at rest along an arc
        const V t = ref.dir(x->first);
        if (!ref.near_joint(x->first, 1e-5) && t.cwiseAbs().minCoeff() > 1e-5) bad("not an extreme point", x->first);
      }
      s = x->first;
      if (++guard > 1000) bad("endless switching points", s);
    }
    bool disc = false;
    if (q.GetNextSwitchingPoint(std::max(s, 0.0) + 1e-9, disc) < q.Length() - 1e-3 && sp.empty()) bad("end", s);
    // every extreme point is listed
    for (auto& pc : ref.pieces)
      if (pc.radius > 0)
        for (long d = 0; d < pc.x.rows(); d++) {
          double an = std::atan2(pc.y(d), pc.x(d));
          if (an < 0) an += M_PI;
          const double e = an * pc.radius;
          if (std::hypot(pc.x(d), pc.y(d)) < 1e-9 || e < 1e-4 || e > pc.len - 1e-4) continue;
          bool listed = false;
          for (auto& x : sp) listed |= std::fabs(x.first - pc.at - e) < 1e-4;
          if (!listed) bad("extreme point not listed", pc.at + e);
        }
  }
  r.state(at);
}

MC_SCENARIO(paths, "all waypoint paths of 2..4 (thorough 5) points with 8 directions and two step lengths, also lifted to 3 dimensions, 4 deviations: length, position, direction and curvature against circular blends, within the deviation of the waypoints; copies and assignments equal and independent", 3) {
  auto p = waypoints(r, 2, r.bound(4, 5), true);
  const int dims = r.choose(2, "dimensions") + 2;
  if (dims == 3)
    for (size_t i = 0; i < p.size(); i++) {
      const V q = p[i];
      p[i] = Eigen::Vector3d(q(0), q(1), 0.3 * (double)(i % 2) - q(0));
    }
  const double dev = r.pick(std::vector<double>{0.02, 0.2, 5, 0});
  judge_path(r, p, dev);
}
MC_SCENARIO(nearly_joined, "all waypoint paths of 4 points with 8 directions and two step lengths, the deviation chosen so that a blend leaves a straight piece of 1e-4 to 0.1 of the first or the middle step", 3) {
  const auto p = waypoints(r, 4, 4, true);
  const size_t at = 1 + (size_t)r.choose(2, "corner");
  const V u = (p[at] - p[at - 1]).normalized(), v = (p[at + 1] - p[at]).normalized();
  const double half = 0.5 * std::acos(std::max(-1.0, std::min(1.0, u.dot(v))));
  if (half < 1e-3) throw mc::Prune();
  const double left = r.pick(std::vector<double>{1e-4, 1e-3, 1e-2, 0.1});
  const double d = 0.5 * ((p[at] - p[at - 1]).norm() - left);
  judge_path(r, p, d * (1 - std::cos(half)) / std::sin(half));
}

static const std::vector<Limits> LIMITS{{{1, 1}, {1, 1}}, {{0.3, 2}, {1, 0.5}}, {{5, 5}, {1, 3}}, {{0.4, 0.25}, {6, 4}}};

static void judge(mc::Run& r, const std::vector<V>& p, const Limits& lim, double dev, double dt, bool from_path) {
  const std::string at = mc::cat(show(p), " deviation ", dev, " velocity ", mc::str(lim.vel), " acceleration ", mc::str(lim.acc), " step ", dt);
  r.note([&] { return at; });
  const V mv = Eigen::Map<const V>(lim.vel.data(), (long)lim.vel.size()), ma = Eigen::Map<const V>(lim.acc.data(), (long)lim.acc.size());
  const Ref ref(p, dev);
  std::unique_ptr<totp::Trajectory> made;
  try {
    if (from_path)
      made.reset(new totp::Trajectory(totp::Path(list(p), dev), mv, ma, dt));
    else
      made.reset(new totp::Trajectory(list(p), mv, ma, dev, dt));
  } catch (const std::exception& e) {
    r.fail(mc::cat(at, ": no trajectory: ", e.what()));
  }
  const totp::Trajectory& t = *made;
  const double T = t.Duration();
  if (!(T > 0) || !std::isfinite(T)) r.fail(mc::cat(at, ": duration ", T));
  const double best = optimum(ref, lim, r.bound(100, 300));
  if (best > 0 && (T > best * 1.015 + 2 * dt || T < best * 0.98 - 2 * dt)) r.fail(mc::cat(at, ": lasts ", T, ", the optimum is ", best));
  const int N = 120;
  const double h = T / N;
  V lastp, lastv;
  std::vector<V> vels;
  double s = 0;
  for (int i = 0; i <= N; i++) {
    const double time = i == N ? T : i * h;
    const auto pv = t.GetPositionVelocity(time);
    r.step();
    const std::string when = mc::cat(at, " at ", time, " of ", T, ": ");
    if (!pv.first.allFinite() || !pv.second.allFinite()) r.fail(when + "not finite");
    if (i == 0 && ((pv.first - p[0]).norm() > 1e-6 || pv.second.norm() > 1e-6)) r.fail(when + "does not start at rest at the first waypoint");
    if (i == N && ((pv.first - p.back()).norm() > 1e-4 || pv.second.norm() > 1e-5)) r.fail(mc::cat(when, "does not end at rest at the last waypoint, off by ", (pv.first - p.back()).norm(), " speed ", pv.second.norm()));
    for (long j = 0; j < mv.rows(); j++)
      if (std::fabs(pv.second(j)) > mv(j) * 1.001 + 1e-6) r.fail(mc::cat(when, "velocity ", pv.second(j), " over the limit ", mv(j)));
    if (i) {
      // onwards along the path
      const double chord = (pv.first - lastp).norm();
      double lo = s, hi = std::min(ref.length, s + 1.7 * chord + 1e-4);
      for (int k = 0; k < 60; k++) {
        const double a = lo + (hi - lo) / 3, b = hi - (hi - lo) / 3;
        if ((ref.pos(a) - pv.first).norm() < (ref.pos(b) - pv.first).norm()) hi = b;
        else lo = a;
      }
      s = lo;
      if ((ref.pos(s) - pv.first).norm() > 1e-4) r.fail(mc::cat(when, (ref.pos(s) - pv.first).norm(), " off the path or moving back"));
      // direction of motion
      if (!ref.near_joint(s, 1e-3) && i < N) {
        const V d = ref.dir(s);
        if ((pv.second - d * pv.second.dot(d)).norm() > 1e-2 * (1 + pv.second.norm()) || pv.second.dot(d) < -1e-3) r.fail(when + "velocity does not point along the path");
      }
      // an average over any stretch of time keeps the limits too
      for (int k : {1, 12})
        for (long j = 0; j < mv.rows() && i >= k; j++) {
          const double acc = (pv.second(j) - vels[(size_t)(i - k)](j)) / (k * h);
          if (std::fabs(acc) > ma(j) * (1.005 + 1.5 * dt / (k * h))) r.fail(mc::cat(when, "acceleration ", acc, " over the limit ", ma(j)));
        }
      for (long j = 0; j < mv.rows(); j++) {
        const double moved = (pv.first(j) - lastp(j)) / h, mean = 0.5 * (pv.second(j) + lastv(j));
        if (std::fabs(moved - mean) > 0.5 * h * ma(j) + 0.01 * (1 + std::fabs(mean))) r.fail(mc::cat(when, "velocity ", mean, " but moving at ", moved));
      }
    }
    lastp = pv.first;
    vels.push_back(pv.second);
    lastv = pv.second;
  }
  r.state(at);
}
MC_SCENARIO(trajectories, "all waypoint paths of 2 and 3 points, 8 directions and two step lengths, 4 limit sets, 3 deviations, steps of 0.01 (thorough also 0.001), built from waypoints and from a path: sampled in 120 places", 4) {
  const auto p = waypoints(r, 2, 3, true);
  const auto lim = r.pick(LIMITS);
  const double dev = p.size() == 2 ? 0.1 : r.pick(std::vector<double>{0.02, 0.1, 3});
  const double dt = r.thorough() && r.flip("fine steps") ? 0.001 : 0.004;
  judge(r, p, lim, dev, dt, r.flip("from a path"));
}
MC_SCENARIO(longer_trajectories, "all waypoint paths of 4 points (thorough 5 points with one step length) in 8 directions, limits and deviations paired", 4) {
  const int n = r.thorough() && r.flip("five points") ? 5 : 4;
  const auto p = waypoints(r, n, n, n == 4 && r.thorough());
  const int c = r.choose(r.bound(2, 4), "limits");
  judge(r, p, LIMITS[(size_t)c], c == 1 ? 0.3 : c == 2 ? 2.0 : 0.05, 0.005, false);
}
MC_SCENARIO(many_joints, "waypoint paths of 3 points in one and three dimensions (thorough also in five)", 3) {
  const int d = r.pick(r.thorough() ? std::vector<int>{1, 3, 5} : std::vector<int>{1, 3});
  std::vector<V> p{V::Zero(d)};
  for (int i = 1; i < 3; i++) {
    V q = p.back();
    double any = 0;
    for (int j = 0; j < std::min(d, 3); j++) q(j) += 0.5 * (r.choose(3, "step") - 1);
    for (int j = 3; j < d; j++) q(j) += 0.2 * j * i;
    any = (q - p.back()).norm();
    if (any < 0.1) throw mc::Prune();
    p.push_back(q);
  }
  if ((p[2] - p[1]).normalized().dot((p[1] - p[0]).normalized()) < -0.99) throw mc::Prune();
  Limits lim;
  const int slow = r.choose(std::min(d, 3) + 1, "slow joint");
  for (int j = 0; j < d; j++) lim.vel.push_back(j == slow ? 0.2 : 1), lim.acc.push_back(j == slow ? 0.7 : 2);
  judge(r, p, lim, 0.1, 0.005, false);
}

MC_SCENARIO(slanted, "straight paths and paths with one corner that hardly move along one coordinate (slopes of 1e-4 to 0.3, both signs), whose speed or acceleration is limited by that coordinate alone", 2) {
  const double e = r.pick(std::vector<double>{1e-4, 1e-3, 0.01, 0.03, 0.1, 0.3}) * (r.flip("downwards") ? -1 : 1);
  std::vector<V> p{Eigen::Vector2d(0.3, 0.1), Eigen::Vector2d(1.3, 0.1 + e)};
  if (r.flip("corner")) p.push_back(Eigen::Vector2d(1.3 + 0.5 * e, 0.6));
  const bool swapped = r.flip("swapped");
  if (swapped)
    for (auto& q : p) std::swap(q(0), q(1));
  const double v = std::fabs(e) * r.pick(std::vector<double>{0.2, 0.6, 50}), a = std::fabs(e) * r.pick(std::vector<double>{0.3, 50});
  Limits lim{{1, 1}, {1, 1}};
  const size_t j = swapped ? 0 : 1;
  const bool corner = p.size() == 3;
  lim.vel[j] = v, lim.acc[j] = a;
  // behind a corner all of the way is along the limited coordinate: keep that in proportion
  if (corner && (std::fabs(e) < 0.03 || v > 10 || a > 10)) throw mc::Prune();
  judge(r, p, lim, 0.05, 0.004, false);
}

MC_SCENARIO(queries, "three trajectories; every sequence of up to 4 (thorough 5) queries over 10 times, interrupted by copying, and by dropping the original: each answer equals that of a fresh trajectory", 2) {
  static const std::vector<std::vector<V>> P{
      {Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0)},
      {Eigen::Vector2d(0, 0), Eigen::Vector2d(1, 0), Eigen::Vector2d(1, 1)},
      {Eigen::Vector2d(0, 0), Eigen::Vector2d(0.2, 0.5), Eigen::Vector2d(1, 1), Eigen::Vector2d(0.5, 2)}};
  const auto& p = P[(size_t)r.choose(3, "path")];
  const V mv = Eigen::Vector2d(1, 0.7), ma = Eigen::Vector2d(2, 1);
  auto fresh = [&] { return std::unique_ptr<totp::Trajectory>(new totp::Trajectory(list(p), mv, ma, 0.1, 0.05)); };
  std::unique_ptr<totp::Trajectory> t = fresh();
  const double T = t->Duration();
  static std::map<std::pair<size_t, int>, std::pair<V, V>> expected;
  const std::vector<double> times{0, 1e-9, 0.2 * T, 0.2 * T + 1e-6, 0.2 * T + 0.06, 0.5 * T, 0.7 * T, 0.95 * T, T - 1e-9, T};
  std::string did = show(p);
  const int depth = r.bound(4, 5);
  for (int d = 0; d < depth; d++) {
    const int k = r.choose(d ? 12 : 10, "query");
    if (k >= 10) {
      std::unique_ptr<totp::Trajectory> u(new totp::Trajectory(*t));
      if (k == 10) t.swap(u);  // continue with the copy, the original is dropped
      did += k == 10 ? " copy" : " copy dropped";
      continue;
    }
    const auto key = std::make_pair(p.size(), k);
    if (!expected.count(key)) expected[key] = fresh()->GetPositionVelocity(times[(size_t)k]);
    const auto got = t->GetPositionVelocity(times[(size_t)k]);
    did += mc::cat(" ", times[(size_t)k]);
    r.step();
    if ((got.first - expected[key].first).norm() > 1e-9 || (got.second - expected[key].second).norm() > 1e-9)
      r.fail(mc::cat(did, ": position (", got.first(0), " ", got.first(1), "), a fresh trajectory says (", expected[key].first(0), " ", expected[key].first(1), ")"));
    if (t->Duration() != T) r.fail(did + ": duration changed");
  }
  r.state(did);
}
