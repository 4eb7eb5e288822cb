// P15: distance matrices, nearest neighbours and the directed Hausdorff distance against their definitions. Built
// twice: serial, and (PAR) with OpenMP regions run on the controlled scheduler.
#include "trap.hpp"
#ifdef PAR
#include "sched.hpp"
#endif

#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/eigen_helpers.hpp>
#include <arc_utilities/simple_hausdorff_distance.hpp>

static const double INF = std::numeric_limits<double>::infinity();
typedef std::vector<std::vector<double>> Table;
typedef std::vector<std::pair<int64_t, double>> Near;

static std::vector<int> iota(int n) {
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(i);
  return v;
}
static void same(mc::Run& r, const char* what, const Eigen::MatrixXd& got, const Table& want, size_t cols) {
  bool ok = (size_t)got.rows() == want.size() && (size_t)got.cols() == cols;
  for (size_t i = 0; ok && i < want.size(); i++)
    for (size_t j = 0; ok && j < cols; j++) ok = got((long)i, (long)j) == want[i][j];
  if (!ok) r.fail(mc::cat(what, " is\n", got, "\nexpected ", mc::str(want)));
}
static void check_matrix(mc::Run& r, int n, const Table& t) {
  const std::function<double(const int&, const int&)> d = [&](const int& a, const int& b) { return t[(size_t)a][(size_t)b]; };
  const std::vector<int> items = iota(n);
  same(r, "serial one-set matrix", arc_helpers::BuildDistanceMatrixSerial(items, d), t, (size_t)n);
  same(r, "parallel one-set matrix", arc_helpers::BuildDistanceMatrixParallel(items, d), t, (size_t)n);
}
static void check_two(mc::Run& r, int n, int m, const Table& t) {
  const std::function<double(const int&, const int&)> d = [&](const int& a, const int& b) { return t[(size_t)a][(size_t)b]; };
  same(r, "serial two-set matrix", arc_helpers::BuildDistanceMatrixSerial(iota(n), iota(m), d), t, (size_t)m);
  same(r, "parallel two-set matrix", arc_helpers::BuildDistanceMatrixParallel(iota(n), iota(m), d), t, (size_t)m);
}
static void near_ok(mc::Run& r, const char* what, const std::vector<double>& dist, size_t k, const Near& got) {
  std::vector<double> want = dist, have;
  std::sort(want.begin(), want.end());
  if (want.size() > k) want.resize(k);
  std::set<int64_t> seen;
  for (auto& g : got) {
    if (g.first < 0 || g.first >= (int64_t)dist.size() || !seen.insert(g.first).second || g.second != dist[(size_t)g.first])
      r.fail(mc::cat(what, " nearest neighbours of distances ", mc::str(dist), " with k=", k, " are ", mc::str(got)));
    have.push_back(g.second);
  }
  std::sort(have.begin(), have.end());
  while (!want.empty() && want.back() == INF && want.size() > have.size()) want.pop_back();  // may be omitted
  if (have != want)
    r.fail(mc::cat(what, " nearest neighbours of distances ", mc::str(dist), " with k=", k, " are ", mc::str(got)));
}
static void check_near(mc::Run& r, const std::vector<double>& dist, size_t k) {
  const std::function<double(const int&, const double&)> d = [&](const int& i, const double& cur) {
    return dist[(size_t)i] + cur;
  };
  const std::vector<int> items = iota((int)dist.size());
  near_ok(r, "serial", dist, k, arc_helpers::GetKNearestNeighborsSerial(items, 0.0, d, k));
  near_ok(r, "parallel", dist, k, arc_helpers::GetKNearestNeighborsParallel(items, 0.0, d, k));
}
static void check_hausdorff(mc::Run& r, int n, int m, const Table& t) {
  const std::function<double(const int&, const int&)> d = [&](const int& a, const int& b) { return t[(size_t)a][(size_t)b]; };
  double want = 0.0;
  for (int i = 0; i < n; i++) {
    double lo = INF;
    for (int j = 0; j < m; j++) lo = std::min(lo, t[(size_t)i][(size_t)j]);
    want = std::max(want, lo);
  }
  const double got = simple_hausdorff_distance::SimpleHausdorffDistance::ComputeDistance(iota(n), iota(m), d);
  if (got != want) r.fail(mc::cat("Hausdorff distance of table ", mc::str(t), " is ", got, ", expected ", want));
}
static void check_points(mc::Run& r, const std::vector<Eigen::Vector2d>& pts) {
  Eigen::MatrixXd m(2, (long)pts.size());
  Table sq(pts.size(), std::vector<double>(pts.size())), ab = sq;
  for (size_t i = 0; i < pts.size(); i++) {
    m.col((long)i) = pts[i];
    for (size_t j = 0; j < pts.size(); j++) {
      sq[i][j] = (pts[i] - pts[j]).squaredNorm();
      ab[i][j] = std::sqrt(sq[i][j]);
    }
  }
  same(r, "squared point distances", EigenHelpers::CalculateSquaredDistanceMatrix(m), sq, pts.size());
  same(r, "point distances", EigenHelpers::CalculateDistanceMatrix(m), ab, pts.size());
}
static Table symmetric(mc::Run& r, int n, const std::vector<double>& alphabet) {
  Table t((size_t)n, std::vector<double>((size_t)n, 0.0));
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) t[(size_t)i][(size_t)j] = t[(size_t)j][(size_t)i] = r.pick(alphabet, "distance");
  return t;
}
static Table distinct(int n, int m) {
  Table t((size_t)n, std::vector<double>((size_t)m));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < m; j++) t[(size_t)i][(size_t)j] = 1 + (i * 7 + j * 11) % 13 + 0.25 * i;
  return t;
}

#ifndef PAR
struct Threads {
  Threads(mc::Run&, int = 0) {}
};
#define EACH ""
#else
struct Threads : sched::Scope {
  Threads(mc::Run& r, int bound = 0) : sched::Scope(r, bound, 1 + r.choose(3, "threads")) {
    sched::cfg.access_points = bound > 0;
  }
};
#define EACH " (1..3 threads, every order of running them)"
#endif

#ifndef PAR
MC_SCENARIO(one_set, "every symmetric distance table over {0,1,2.5} on 0..4 items", 3) {
  const int n = r.choose(5, "items");
  const Table t = symmetric(r, n, {0, 1, 2.5});
  check_matrix(r, n, t);
  r.step();
  r.state(mc::str(t));
}
MC_SCENARIO(two_sets, "every pair of set sizes 0..4 with distinct distances, and every binary table up to 3x3", 2) {
  const int n = r.choose(5, "first"), m = r.choose(5, "second");
  Table t = distinct(n, m);
  if (n < 4 && m < 4 && r.flip("binary"))
    for (auto& row : t)
      for (auto& x : row) x = r.choose(2, "distance");
  check_two(r, n, m, t);
  r.step();
  r.state(mc::str(t));
}
MC_SCENARIO(neighbours, "every list of up to 5 distances over {0,1,2,infinite} and every k", 3) {
  const int n = r.choose(6, "items");
  std::vector<double> dist;
  for (int i = 0; i < n; i++) dist.push_back(r.pick(std::vector<double>{0, 1, 2, INF}, "distance"));
  for (size_t k = 0; k <= (size_t)n + 1; k++) {
    check_near(r, dist, k);
    r.step();
  }
  r.state(mc::str(dist));
}
MC_SCENARIO(hausdorff, "every distance table over {0,1,2,infinite} with up to 6 entries, and 3x3 over {0,1,2}", 3) {
  const int n = r.choose(4, "first"), m = r.choose(4, "second");
  Table t((size_t)n, std::vector<double>((size_t)m));
  for (auto& row : t)
    for (auto& x : row) x = r.pick(n * m <= 6 ? std::vector<double>{0, 1, 2, INF} : std::vector<double>{0, 1, 2}, "distance");
  check_hausdorff(r, n, m, t);
  r.step();
  r.state(mc::str(t));
}
MC_SCENARIO(points, "every list of 1..4 points with coordinates in {-1,0,2}", 2) {
  const int n = 1 + r.choose(4, "points");
  std::vector<Eigen::Vector2d> pts;
  for (int i = 0; i < n; i++) pts.push_back(Eigen::Vector2d(r.pick(std::vector<double>{-1, 0, 2}), r.pick(std::vector<double>{-1, 0, 2})));
  check_points(r, pts);
  r.step();
  std::string s;
  for (auto& p : pts) s += mc::cat(p.x(), ",", p.y(), ";");
  r.state(s);
}
MC_SCENARIO(scales, "every list of up to 4 distances over {0,1,2,3}, every table with up to 6 entries over {0,1,3} and points, scaled to tiny, huge and nearly equal distances", 3) {
  const mc::Scale sc = r.scale();
  const int what = r.choose(3, "neighbours / Hausdorff / points");
  if (what == 0) {
    const int n = r.choose(5, "items");
    std::vector<double> dist;
    for (int i = 0; i < n; i++) dist.push_back(sc(r.choose(4, "distance")));
    for (size_t k = 0; k <= (size_t)n + 1; k++) check_near(r, dist, k);
    r.state(mc::str(dist));
  } else if (what == 1) {
    const int n = r.choose(4, "first"), m = r.choose(3, "second");
    Table t((size_t)n, std::vector<double>((size_t)m));
    for (auto& row : t)
      for (auto& x : row) x = sc(r.pick(std::vector<double>{0, 1, 3}, "distance"));
    check_hausdorff(r, n, m, t);
    check_two(r, n, m, t);
    r.state(mc::str(t));
  } else {
    const int n = 1 + r.choose(3, "points");
    std::vector<Eigen::Vector2d> pts;
    for (int i = 0; i < n; i++) pts.push_back(Eigen::Vector2d(sc(r.pick(std::vector<double>{-1, 0, 2})), sc(r.pick(std::vector<double>{-1, 0, 2}))));
    check_points(r, pts);
  }
  r.step();
}
#else
MC_SCENARIO(neighbours_orders, "every list of up to 4 distances over {0,1,2,infinite}, every k, 1..3 threads in every order", 3) {
  const int n = r.choose(5, "items");
  std::vector<double> dist;
  for (int i = 0; i < n; i++) dist.push_back(r.pick(std::vector<double>{0, 1, 2, INF}, "distance"));
  const int k = r.choose(n + 2, "k");
  Threads th(r);
  check_near(r, dist, (size_t)k);
  r.state(mc::cat(mc::str(dist), k));
}
MC_SCENARIO(hausdorff_orders, "every distance table over {0,1,2} with up to 6 entries, 1..3 threads in every order", 3) {
  const int n = r.choose(4, "first"), m = r.choose(3, "second");
  Table t((size_t)n, std::vector<double>((size_t)m));
  for (auto& row : t)
    for (auto& x : row) x = r.choose(3, "distance");
  Threads th(r);
  check_hausdorff(r, n, m, t);
  r.state(mc::str(t));
}
MC_SCENARIO(matrix_orders, "one-set and two-set matrices of 0..4 items with distinct distances and point distances, 1..3 threads in every order", 3) {
  const int n = r.choose(5, "first"), m = r.choose(5, "second");
  Threads th(r);
  if (n == m) {
    Table t = distinct(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++) t[(size_t)i][(size_t)j] = i == j ? 0.0 : t[(size_t)j][(size_t)i];
    check_matrix(r, n, t);
  }
  check_two(r, n, m, distinct(n, m));
  if (n && !m) {
    std::vector<Eigen::Vector2d> pts;
    for (int i = 0; i < n; i++) pts.push_back(Eigen::Vector2d(i * i, 3 - i));
    check_points(r, pts);
  }
  r.state(mc::cat(n, m));
}
// Pre-emption at every load and store of shared memory.
MC_SCENARIO(neighbour_races, "three distance lists of 3 items, k=1 and 2, 2..3 threads, pre-emption at every shared access (at most 2 pre-emptions, thorough 3)", 3) {
  static const std::vector<std::vector<double>> lists = {{2, 1, 0}, {1, 1, 0.5}, {0, INF, 1}};
  const std::vector<double> dist = r.pick(lists, "distances");
  const int k = 1 + r.choose(2, "k"), threads = 2 + r.choose(2, "threads");
  sched::Scope s(r, r.bound(2, 3), threads);
  sched::cfg.access_points = true;
  const std::function<double(const int&, const double&)> d = [&](const int& i, const double& cur) {
    return dist[(size_t)i] + cur;
  };
  near_ok(r, "parallel", dist, (size_t)k, arc_helpers::GetKNearestNeighborsParallel(iota(3), 0.0, d, (size_t)k));
  r.state(mc::cat(mc::str(dist), k, threads));
}
MC_SCENARIO(hausdorff_races, "two tables of 3x1 distances, 2..3 threads, pre-emption at every shared access (at most 2 pre-emptions, thorough 3)", 2) {
  static const std::vector<Table> tables = {{{2}, {1}, {3}}, {{3}, {1}, {2}}};
  const Table t = r.pick(tables, "table");
  const int threads = 2 + r.choose(2, "threads");
  sched::Scope s(r, r.bound(2, 3), threads);
  sched::cfg.access_points = true;
  check_hausdorff(r, 3, 1, t);
  r.state(mc::cat(mc::str(t), threads));
}
MC_SCENARIO(matrix_races, "2- and 3-item matrices of all kinds, 2..3 threads, pre-emption at every shared access (at most 2 pre-emptions, thorough 3)", 3) {
  const int kind = r.choose(3, "kind"), n = 2 + r.choose(2, "items"), threads = 2 + r.choose(2, "threads");
  sched::Scope s(r, r.bound(2, 3), threads);
  sched::cfg.access_points = true;
  if (kind == 0) {
    Table t = distinct(n, n);
    for (int i = 0; i < n; i++)
      for (int j = 0; j <= i; j++) t[(size_t)i][(size_t)j] = i == j ? 0.0 : t[(size_t)j][(size_t)i];
    check_matrix(r, n, t);
  } else if (kind == 1) {
    check_two(r, n, 2, distinct(n, 2));
  } else {
    std::vector<Eigen::Vector2d> pts;
    for (int i = 0; i < n; i++) pts.push_back(Eigen::Vector2d(i * i, 3 - i));
    check_points(r, pts);
  }
  r.state(mc::cat(kind, n, threads));
}
#endif
