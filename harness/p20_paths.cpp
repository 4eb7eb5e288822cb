// P20: resampling, upsampling, shortcutting and joining of paths.
#include "trap.hpp"

#include <arc_utilities/path_utils.hpp>
#include <arc_utilities/trajectory_utils.h>
#include <queue>

// uniform engine whose draws are midpoints of equal cells
struct Draws {
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~(uint64_t)0; }
  std::function<double()> unit;
  uint64_t operator()() { return (uint64_t)(unit() * 18446744073709551616.0); }
};
typedef std::vector<double> Path;
static double UNIT = 1, EPS = 1e-9;  // all lengths are multiples of UNIT
struct Scaled {
  Scaled(double u) {
    UNIT = u;
    EPS = 1e-9 * u;
  }
  ~Scaled() {
    UNIT = 1;
    EPS = 1e-9;
  }
};
static double dist(const double& a, const double& b) { return std::fabs(a - b); }

// --- shortcutting. States are their own positions; validity of every pair is chosen when first asked.
struct Shortcut {
  mc::Run& r;
  std::map<std::pair<int, int>, bool> valid;
  uint32_t asked = 0, refused = 0, max_failed = 0;
  bool check(const int& a, const int& b) {
    asked++;
    auto k = std::make_pair(a, b);
    if (!valid.count(k)) valid[k] = r.flip("edge valid");
    if (refused >= max_failed) r.fail("edge checked after the permitted number of failures");
    if (!valid[k]) refused++;
    r.step();
    return valid[k];
  }
};
MC_SCENARIO(shortcut, "every path length 0..6 (also with repeated states), iteration limits up to 4 (thorough 5), failure limits 0..2, three reach fractions, every draw of base and offset on a grid, every set of valid edges", 4) {
  const int n = r.choose(7, "length");
  std::vector<int> path;
  for (int i = 0; i < n; i++) path.push_back(i);
  const bool loop = n > 3 && r.flip("revisits a state");
  if (loop) path[(size_t)n - 2] = 1;
  const std::vector<int> before = path;
  Shortcut s{r};
  const uint32_t iterations = (uint32_t)r.choose(r.bound(5, 6), "iterations");
  s.max_failed = (uint32_t)r.choose(3, "failures");
  const double fraction = r.pick(std::vector<double>{1.0, 0.6, 0.0});
  int draw = 0;
  const int cells = iterations > 2 ? 3 : 6;
  Draws rng{[&] {
    const int k = draw++ % 2 ? 4 : cells;
    return (r.choose(k, "draw") + 0.5) / k;
  }};
  std::function<bool(const int&, const int&)> edge = [&](const int& a, const int& b) { return s.check(a, b); };
  const auto out = path_utils::ShortcutSmoothPath<Draws, int>(path, iterations, s.max_failed, fraction, edge, rng);
  const std::string at = mc::cat("path ", mc::str(path), " shortcut to ", mc::str(out));
  if (path != before) r.fail(at + ": the argument was changed");
  if (s.asked > iterations) r.fail(at + ": more edges checked than iterations");
  if (n <= 2 || iterations == 0 || s.max_failed == 0) {
    if (out != path || s.asked) r.fail(at + ": changed though nothing was permitted");
    r.state(at);
    return;
  }
  if (out.empty() || out.front() != path.front() || out.back() != path.back()) r.fail(at + ": endpoints changed");
  // a subsequence of the path, each skip of which was accepted
  std::vector<std::set<size_t>> pos(1, std::set<size_t>{0});  // original positions where out[i] may be
  for (size_t i = 1; i < out.size(); i++) {
    std::set<size_t> next;
    for (size_t from : pos.back())
      for (size_t to = from + 1; to < path.size(); to++)
        if (path[to] == out[i] && (to == from + 1 || (s.valid.count({out[i - 1], out[i]}) && s.valid[{out[i - 1], out[i]}]))) next.insert(to);
    pos.push_back(next);
  }
  if (!pos.back().count(path.size() - 1)) r.fail(at + ": a step is neither a step of the path nor was accepted");
  r.state(at);
}
MC_SCENARIO(shortcut_total, "a path of 8 states where every edge is valid, draws reaching across it: it ends up as short as the accepted edges allow", 2) {
  const int a = r.choose(8, "base"), b = r.choose(8, "offset");
  int draw = 0;
  Draws rng{[&] { return ((draw++ % 2 ? b : a) + 0.5) / 8; }};
  std::vector<std::pair<int, int>> accepted;
  std::function<bool(const int&, const int&)> edge = [&](const int& x, const int& y) {
    accepted.push_back({x, y});
    return true;
  };
  const std::vector<int> path{0, 1, 2, 3, 4, 5, 6, 7};
  const auto out = path_utils::ShortcutSmoothPath<Draws, int>(path, 20, 5, 1.0, edge, rng);
  std::vector<int> want = path;
  for (auto& e : accepted) {
    auto i = std::find(want.begin(), want.end(), e.first), j = std::find(want.begin(), want.end(), e.second);
    if (i == want.end() || j == want.end() || j - i < 2) r.fail("checked an edge that is not a shortcut of the current path");
    want.erase(i + 1, j);
  }
  r.step();
  if (out != want) r.fail(mc::cat("accepted shortcuts were not taken: ", mc::str(out), " expected ", mc::str(want)));
  r.state(mc::str(out));
}
// --- resampling and upsampling
static Path some_path(mc::Run& r, int max) {
  const int n = 1 + r.choose(max, "length");
  Path p(1, (r.flip("start") ? -2.0 : 0.5) * UNIT);
  for (int i = 1; i < n; i++) p.push_back(p.back() + UNIT * r.pick(std::vector<double>{0.0, 1.0, -2.5, 3.0, 0.1}));
  return p;
}
struct Interp {
  mc::Run& r;
  double operator()(const double& a, const double& b, const double t) const {
    if (!(t >= 0 && t <= 1)) r.fail(mc::cat("interpolation asked at ", t));
    return t == 1 ? b : a + (b - a) * t;
  }
};
// out follows p[from,to): every state of it in order, evenly spaced in between; cuts[i] gets the pieces of segment i
static void follow(mc::Run& r, const std::string& at, const Path& p, const Path& out, std::vector<int>& cuts, bool drop_repeats) {
  if (out.empty() || out.front() != p.front()) r.fail(at + ": wrong first state");
  size_t o = 0;
  for (size_t i = 0; i + 1 < p.size(); i++) {
    if (drop_repeats && p[i + 1] == p[i]) {
      cuts.push_back(0);
      continue;
    }
    int pieces = cuts.size() > i ? cuts[i] : 0;
    if (cuts.size() <= i) {  // find how many
      while (o + (size_t)pieces < out.size() && !(pieces > 0 && std::fabs(out[o + (size_t)pieces] - p[i + 1]) < EPS)) pieces++;
      cuts.push_back(pieces);
    }
    if (o + (size_t)pieces >= out.size()) r.fail(at + ": a state of the path is missing");
    for (int k = 1; k <= pieces; k++)
      if (std::fabs(out[o + (size_t)k] - (p[i] + (p[i + 1] - p[i]) * k / pieces)) > EPS) r.fail(at + ": states are not spread evenly along the segments");
    o += (size_t)pieces;
  }
  if (o + 1 != out.size()) r.fail(at + ": states after the end");
}
static void resample_all(mc::Run& r, int longest) {
  const Path p = some_path(r, longest);
  const double step = UNIT * r.pick(std::vector<double>{1.0, 0.7, 2.5, 10.0});
  const size_t n = p.size();
  for (size_t a = 0; a <= n; a++)
    for (size_t b = 0; b <= n + 1; b++) {
      const std::string at = mc::cat("resampling ", mc::str(p), " [", a, ",", b, ") at ", step);
      if (a >= b || b > n) {
        bool refused = false;
        try { path_utils::ResamplePathPartial(p, a, b, step, dist, Interp{r}); } catch (const std::invalid_argument&) { refused = true; }
        if (!refused) r.fail(at + ": accepted");
        continue;
      }
      const Path out = a == 0 && b == n ? path_utils::ResamplePath(p, step, dist, Interp{r}) : path_utils::ResamplePathPartial(p, a, b, step, dist, Interp{r});
      const Path part(p.begin() + (long)a, p.begin() + (long)b);
      const std::string got = mc::cat(at, " gives ", mc::str(out));
      std::vector<int> cuts;
      for (size_t i = 0; i + 1 < part.size(); i++) cuts.push_back((int)std::ceil(dist(part[i], part[i + 1]) / step));
      for (auto& c : cuts) c = std::max(c, 0);
      Path kept(1, part[0]);
      std::vector<int> kc;
      for (size_t i = 1; i < part.size(); i++)
        if (part[i] != part[i - 1]) {
          kept.push_back(part[i]);
          kc.push_back(cuts[i - 1]);
        }
      follow(r, got, kept, out, kc, false);
      for (size_t i = 0; i + 1 < out.size(); i++)
        if (dist(out[i], out[i + 1]) > step + EPS) r.fail(got + ": spacing too large");
      r.step();
      r.state(got);
    }
}
MC_SCENARIO(resample, "every path of up to 6 (thorough 7) states with steps {0,1,-2.5,3,0.1}, every sub-range, four spacings", 3) { resample_all(r, r.bound(6, 7)); }
// smallest possible largest spacing when k points are added to the segments
static double best_spacing(const Path& lens, size_t i, int k) {
  if (i + 1 == lens.size()) return lens[i] / (k + 1);
  double best = 1e300;
  for (int c = 0; c <= k; c++) best = std::min(best, std::max(lens[i] / (c + 1), best_spacing(lens, i + 1, k - c)));
  return best;
}
static void upsample_all(mc::Run& r, int longest) {
  const Path p = some_path(r, longest);
  const ssize_t n = (ssize_t)p.size();
  const ssize_t points = 1 + r.choose(8, "points");
  for (ssize_t a = 0; a < n; a++)
    for (ssize_t b = a + 1; b <= n; b++) {
      if (b - a == 1 && points > 1) continue;  // a single state cannot be upsampled
      const Path out = a == 0 && b == n ? path_utils::UpsamplePath(p, points, dist, Interp{r}) : path_utils::UpsamplePathPartial(p, a, b, points, dist, Interp{r});
      const Path part(p.begin() + a, p.begin() + b);
      const std::string got = mc::cat("upsampling ", mc::str(p), " [", a, ",", b, ") to ", points, " gives ", mc::str(out));
      r.step();
      r.state(got);
      if (b - a >= points) {
        if (out != part) r.fail(got + ": should be that part of the path");
        continue;
      }
      if ((ssize_t)out.size() != points || out.front() != part.front() || out.back() != part.back()) r.fail(got + ": wrong number of states or wrong ends");
      // some assignment of the points to the segments spreads them evenly, passing through every state
      Path lens;
      for (size_t i = 0; i + 1 < part.size(); i++) lens.push_back(dist(part[i], part[i + 1]));
      std::function<bool(size_t, size_t)> fits = [&](size_t seg, size_t o) {
        if (seg == lens.size()) return o + 1 == out.size();
        for (size_t c = 1; o + c < out.size(); c++) {
          bool even = true;
          for (size_t k = 0; even && k <= c; k++) even = std::fabs(out[o + k] - (part[seg] + (part[seg + 1] - part[seg]) * (double)k / (double)c)) < EPS;
          if (even && fits(seg + 1, o + c)) return true;
        }
        return false;
      };
      if (!fits(0, 0)) r.fail(got + ": the points do not pass evenly through the states of the path");
      double largest = 0;
      for (size_t i = 0; i + 1 < out.size(); i++) largest = std::max(largest, dist(out[i], out[i + 1]));
      if (largest > best_spacing(lens, 0, (int)(points - (b - a))) + EPS) r.fail(got + ": a more even distribution exists");
    }
}
MC_SCENARIO(upsample, "every path of up to 5 (thorough 6) states with steps {0,1,-2.5,3,0.1}, every sub-range, every target of 1..8 points", 3) { upsample_all(r, r.bound(5, 6)); }
MC_SCENARIO(scales, "resampling and upsampling every path of up to 3 (thorough 4) states with steps {0,1,-2.5,3,0.1}, all lengths and spacings tiny or huge", 3) {
  Scaled scaled(r.flip("huge") ? 1.0 * (1ull << 40) : 1.0 / (1ull << 40));
  if (r.flip("upsample"))
    upsample_all(r, r.bound(3, 4));
  else
    resample_all(r, r.bound(3, 4));
}
struct Point2 {
  double x = 0, y = 0;
};
MC_SCENARIO(plane, "closed and open paths of 2..4 states in the plane over a 3x2 grid: resampled and upsampled states lie on the segments", 3) {
  const int n = 2 + r.choose(3, "length");
  std::vector<Point2> p;
  for (int i = 0; i < n; i++) {
    const int c = r.choose(6, "cell");
    p.push_back(Point2{(double)(c % 3), 1.5 * (c / 3)});
  }
  auto d2 = [](const Point2& a, const Point2& b) { return std::hypot(a.x - b.x, a.y - b.y); };
  auto in = [](const Point2& a, const Point2& b, const double t) { return Point2{a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)}; };
  auto total = [&](const std::vector<Point2>& q) {
    double s = 0;
    for (size_t i = 0; i + 1 < q.size(); i++) s += d2(q[i], q[i + 1]);
    return s;
  };
  for (int form = 0; form < 2; form++) {
    const auto out = form ? path_utils::UpsamplePath(p, (ssize_t)n + 5, d2, in) : path_utils::ResamplePath(p, 0.6, d2, in);
    size_t seg = 0;
    for (auto& q : out) {  // states in order along the path
      while (seg + 1 < p.size() && d2(p[seg], q) + d2(q, p[seg + 1]) > d2(p[seg], p[seg + 1]) + 1e-7) seg++;
      if (seg + 1 == p.size()) r.fail("a state lies off the path or out of order");
    }
    if (std::fabs(total(out) - total(p)) > 1e-6) r.fail("the path changed its length");
    if (d2(out.front(), p.front()) > 1e-9 || d2(out.back(), p.back()) > 1e-9) r.fail("the path changed its ends");
    if (!form)
      for (size_t i = 0; i + 1 < out.size(); i++)
        if (d2(out[i], out[i + 1]) > 0.6 + 1e-9) r.fail("resampled with too large a spacing");
    if (form && out.size() != p.size() + 5) r.fail("upsampled to the wrong number of states");
    r.step();
  }
  r.state(mc::cat(total(p), n));
}
// --- joining trajectories
static trajectory_msgs::JointTrajectory trajectory(mc::Run& r, const char* which, double tag) {
  trajectory_msgs::JointTrajectory t;
  const int names = r.choose(6, which);
  const std::vector<std::vector<std::string>> all = {{}, {"a"}, {"a", "b"}, {"b", "a"}, {"a", "b", "c"}, {"c"}};
  t.joint_names = all[(size_t)names];
  if (r.flip("frame")) t.header.frame_id = mc::cat("frame", tag);
  const int n = r.choose(4, "points");
  double time = r.flip("starts late") ? 0.5 : 0.0;
  for (int i = 0; i < n; i++) {
    trajectory_msgs::JointTrajectoryPoint p;
    p.positions = {tag + i};
    p.velocities = {tag * 10 + i};
    p.time_from_start = ros::Duration(time);
    time += 1.25;
    t.points.push_back(p);
  }
  return t;
}
MC_SCENARIO(append, "every pair of trajectories of 0..3 points with joint lists that agree, are a prefix, are empty or differ; and a third appended", 4) {
  auto a = trajectory(r, "joints", 1.0), b = trajectory(r, "more joints", 100.0);
  const int more = r.choose(2, "third");
  const auto a0 = a, b0 = b;
  for (int round = 0; round < 1 + more; round++) {
    const auto before = a;
    bool refused = false;
    try { trajectory_utils::append(a, b); } catch (const std::runtime_error&) { refused = true; }
    r.step();
    const bool agree = before.joint_names.empty() || before.joint_names == b.joint_names;
    if (refused == agree) r.fail(mc::cat("appending joints ", b.joint_names.size(), " to ", before.joint_names.size(), refused ? " was refused" : " was accepted"));
    const double t0 = before.points.empty() ? 0 : before.points.back().time_from_start.toSec();
    bool ok = true;
    if (refused) {
      ok = a.points.size() == before.points.size() && a.joint_names == before.joint_names && a.header.frame_id == before.header.frame_id;
    } else {
      ok = a.joint_names == b.joint_names && a.header.frame_id == (before.header.frame_id.empty() ? b.header.frame_id : before.header.frame_id) &&
           a.points.size() == before.points.size() + b.points.size();
      for (size_t i = 0; ok && i < a.points.size(); i++) {
        const bool old = i < before.points.size();
        auto& src = old ? before.points[i] : b.points[i - before.points.size()];
        ok = a.points[i].positions == src.positions && a.points[i].velocities == src.velocities &&
             a.points[i].time_from_start.toSec() == src.time_from_start.toSec() + (old ? 0 : t0);
      }
    }
    if (b.points.size() != b0.points.size() || b.joint_names != b0.joint_names) ok = false;
    if (!ok) r.fail("joined trajectory is wrong");
    r.state(mc::cat(a.points.size(), refused, a.joint_names.size(), a.header.frame_id));
  }
}
MC_SCENARIO(append_self, "every trajectory of 0..3 points appended to a copy of itself", 2) {
  auto a = trajectory(r, "joints", 1.0);
  const auto before = a;
  trajectory_msgs::JointTrajectory copy = a;
  trajectory_utils::append(a, copy);
  r.step();
  if (a.points.size() != 2 * before.points.size()) r.fail("a trajectory joined to its copy has the wrong number of points");
  for (size_t i = 1; i < a.points.size(); i++)
    if (a.points[i].time_from_start < a.points[i - 1].time_from_start) r.fail("times run backwards");
  r.state(mc::cat(before.points.size()));
}
