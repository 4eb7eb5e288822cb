// P16: hierarchical clustering against the set of all outcomes of "merge a closest pair while within the limit".
#include "trap.hpp"
#ifdef PAR
#include "sched.hpp"
#endif

#include <arc_utilities/simple_hierarchical_clustering.hpp>
namespace shc = simple_hierarchical_clustering;
typedef shc::SimpleHierarchicalClustering Clusterer;
static const double INF = std::numeric_limits<double>::infinity();
typedef std::vector<std::vector<double>> Table;
typedef std::set<std::vector<int>> Partition;

static double linkage(const Table& t, const std::vector<int>& a, const std::vector<int>& b, bool complete) {
  double lo = INF, hi = 0.0;
  for (int i : a)
    for (int j : b) {
      lo = std::min(lo, t[(size_t)i][(size_t)j]);
      hi = std::max(hi, t[(size_t)i][(size_t)j]);
    }
  return complete ? hi : lo;
}
static double closest(const Table& t, const Partition& p, bool complete) {
  double d = INF;
  for (auto& a : p)
    for (auto& b : p)
      if (a != b) d = std::min(d, linkage(t, a, b, complete));
  return d;
}
static void outcomes(const Table& t, const Partition& p, double limit, bool complete, std::set<Partition>& seen,
                     std::set<Partition>& final) {
  if (!seen.insert(p).second) return;
  const double d = closest(t, p, complete);
  if (d == INF || d > limit) {
    final.insert(p);
    return;
  }
  for (auto& a : p)
    for (auto& b : p)
      if (a < b && linkage(t, a, b, complete) == d) {
        Partition q = p;
        q.erase(a);
        q.erase(b);
        std::vector<int> u = a;
        u.insert(u.end(), b.begin(), b.end());
        std::sort(u.begin(), u.end());
        q.insert(u);
        outcomes(t, q, limit, complete, seen, final);
      }
}
static void judge(mc::Run& r, const char* what, const Table& t, double limit, bool complete,
                  const std::pair<std::vector<std::vector<int>>, double>& got, const std::set<Partition>& allowed) {
  Partition p;
  size_t members = 0;
  for (auto c : got.first) {
    members += c.size();
    std::sort(c.begin(), c.end());
    p.insert(c);
  }
  const std::string in = mc::cat(what, " clustering of ", mc::str(t), " with limit ", limit, complete ? " complete" : " single",
                                 " link gives ", mc::str(got.first), " spacing ", got.second);
  if (members != t.size() || p.size() != got.first.size()) r.fail(in + ": not a partition of the items");
  if (!allowed.count(p)) r.fail(in + ": not reached by merging closest pairs");
  const double want = closest(t, p, complete);
  if (!t.empty() && got.second != want) r.fail(mc::cat(in, ": closest pair left is at ", want));
}
static void check(mc::Run& r, const Table& t, double limit) {
  const int n = (int)t.size();
  std::vector<int> items;
  Partition start;
  Eigen::MatrixXd m(n, n);
  for (int i = 0; i < n; i++) {
    items.push_back(i);
    start.insert({i});
    for (int j = 0; j < n; j++) m(i, j) = t[(size_t)i][(size_t)j];
  }
  const std::function<double(const int&, const int&)> d = [&](const int& a, const int& b) { return t[(size_t)a][(size_t)b]; };
  for (int complete = 0; complete < 2; complete++) {
    std::set<Partition> seen, allowed;
    outcomes(t, start, limit, complete != 0, seen, allowed);
    const auto s = complete ? shc::COMPLETE_LINK : shc::SINGLE_LINK;
    judge(r, "matrix-based", t, limit, complete, Clusterer::Cluster(items, m, limit, s), allowed);
    judge(r, "function-based", t, limit, complete, Clusterer::Cluster(items, d, limit, s), allowed);
    r.step();
  }
}
static Table symmetric(mc::Run& r, int n, const std::vector<double>& alphabet) {
  Table t((size_t)n, std::vector<double>((size_t)n, 0.0));
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) t[(size_t)i][(size_t)j] = t[(size_t)j][(size_t)i] = r.pick(alphabet, "distance");
  return t;
}
// n points with all distances distinct, in an order selected by the seed
static Table ranked(int n, const std::vector<int>& perm) {
  Table t((size_t)n, std::vector<double>((size_t)n, 0.0));
  size_t k = 0;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) t[(size_t)i][(size_t)j] = t[(size_t)j][(size_t)i] = 1 + perm[k++];
  return t;
}
static const std::vector<double> LIMITS = {-1, 0, 1, 1.5, 2, 3.5, 5, 7, 20, INF};

#ifndef PAR
MC_SCENARIO(tied, "every symmetric table over {0,1,2,3} on 0..4 items (5 items over {1,2}), every limit, both linkages, both entry points", 3) {
  const int n = r.choose(6, "items");
  const Table t = symmetric(r, n, n == 5 ? std::vector<double>{1, 2} : std::vector<double>{0, 1, 2, 3});
  for (double l : LIMITS) check(r, t, l);
  r.state(mc::str(t));
}
MC_SCENARIO(ranked_tables, "every order of the six pairwise distances of 4 items, every limit, both linkages", 2) {
  std::vector<int> perm, left = {0, 1, 2, 3, 4, 5};
  while (!left.empty()) {
    const int c = r.choose((int)left.size(), "rank");
    perm.push_back(left[(size_t)c]);
    left.erase(left.begin() + c);
  }
  const Table t = ranked(4, perm);
  for (double l : LIMITS) check(r, t, l);
  r.state(mc::str(t));
}
MC_SCENARIO(infinite, "tables over {1,infinite} on 0..4 items", 2) {
  const int n = r.choose(5, "items");
  const Table t = symmetric(r, n, {1, INF});
  for (double l : LIMITS) check(r, t, l);
  r.state(mc::str(t));
}
MC_SCENARIO(larger, "points on a line: every placement of 6 (thorough: 7) points on 0..5 with the first at 0, three limits", 3) {
  const int n = r.bound(6, 7);
  std::vector<int> x(1, 0);
  while ((int)x.size() < n) x.push_back(x.size() < 3 ? r.choose(6, "x") : (int)(r.choose(3, "x") * 2));
  Table t((size_t)n, std::vector<double>((size_t)n));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) t[(size_t)i][(size_t)j] = std::abs(x[(size_t)i] - x[(size_t)j]);
  for (double l : {0.0, 1.0, 3.0}) check(r, t, l);
  r.state(mc::str(t));
}
MC_SCENARIO(ordered_lines, "five points on a line with every combination of gaps 1..4, listed in every order, limits 2.5 and 3.5 (thorough: also 1.5, 4.5 and 6.5)", 3) {
  std::vector<int> left = {0, 1, 2, 3, 4};
  int place[5] = {0, 0, 0, 0, 0};
  for (int i = 1; i < 5; i++) place[i] = place[i - 1] + 1 + r.choose(4, "gap");
  std::vector<int> x;
  while (!left.empty()) {
    const int c = r.choose((int)left.size(), "next");
    x.push_back(place[left[(size_t)c]]);
    left.erase(left.begin() + c);
  }
  Table t(5, std::vector<double>(5));
  for (size_t i = 0; i < 5; i++)
    for (size_t j = 0; j < 5; j++) t[i][j] = std::abs(x[i] - x[j]);
  for (double l : r.thorough() ? std::vector<double>{1.5, 2.5, 3.5, 4.5, 6.5} : std::vector<double>{2.5, 3.5}) check(r, t, l);
  r.state(mc::str(x));
}
MC_SCENARIO(scales, "every symmetric table over {1,2,3} on 0..4 items (quick: {1,3} on 4), scaled to tiny, huge and nearly equal distances, limits in between, both linkages", 3) {
  const mc::Scale sc = r.scale();
  const int n = r.choose(5, "items");
  Table t = symmetric(r, n, n == 4 && !r.thorough() ? std::vector<double>{1, 3} : std::vector<double>{1, 2, 3});
  for (auto& row : t)
    for (auto& x : row)
      if (x != 0) x = sc(x);
  for (double l : {0.0, sc(0.5), sc(1), sc(1.5), sc(2), sc(2.5), sc(3)}) check(r, t, l);
  r.state(mc::str(t));
}
#else
MC_SCENARIO(orders, "every symmetric table over {1,2} on 0..4 items and every ranked table on 3 items, 1..3 threads; threads run in turn with up to 1 (thorough 2) departures from that order", 3) {
  const int n = r.choose(5, "items"), threads = 1 + r.choose(3, "threads");
  const Table t = symmetric(r, n, n == 3 ? std::vector<double>{1, 2, 3} : n == 4 ? std::vector<double>{1, 2} : std::vector<double>{1});
  const double limit = r.pick(n < 4 ? LIMITS : std::vector<double>{1, 1.5}, "limit");
  sched::Scope s(r, r.bound(1, 2), threads);
  sched::cfg.access_points = false;
  sched::cfg.ordered_start = true;
  check(r, t, limit);
  r.state(mc::cat(mc::str(t), threads));
}
MC_SCENARIO(many_clusters, "three and four tight pairs with every assignment of gaps and spacings, 1..4 threads, up to 1 departure from starting them in turn", 3) {
  const int pairs = 3 + r.choose(2, "pairs"), threads = 1 + r.choose(4, "threads"), n = 2 * pairs;
  std::vector<double> gaps = {1, 1.25, 1.5, 1.75}, spacing = {10, 20, 45}, x;
  gaps.resize((size_t)pairs);
  spacing.resize((size_t)pairs - 1);
  double at = 0;
  for (int i = 0; i < pairs; i++) {
    const int c = pairs == 4 ? (i == 0 ? r.choose(4, "gap") : 0) : r.choose((int)gaps.size(), "gap");
    x.push_back(at);
    x.push_back(at + gaps[(size_t)c]);
    gaps.erase(gaps.begin() + c);
    if (i + 1 < pairs) {
      const int d = r.choose((int)spacing.size(), "spacing");
      at += spacing[(size_t)d];
      spacing.erase(spacing.begin() + d);
    }
  }
  Table t((size_t)n, std::vector<double>((size_t)n));
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) t[(size_t)i][(size_t)j] = std::fabs(x[(size_t)i] - x[(size_t)j]);
  const double limit = r.pick(std::vector<double>{2, 19, 30, 100}, "limit");
  sched::Scope s(r, 1, threads);
  sched::cfg.access_points = false;
  sched::cfg.ordered_start = true;
  check(r, t, limit);
  r.state(mc::cat(mc::str(t), threads));
}
MC_SCENARIO(races, "three tables of 3 and 4 items, 2..3 threads, pre-emption at every shared access (at most 2)", 3) {
  static const std::vector<Table> tables = {ranked(3, {1, 0, 2}), ranked(3, {2, 1, 0}), ranked(4, {0, 4, 3, 5, 2, 1})};
  const Table t = r.pick(tables, "table");
  const int n = (int)t.size();
  const double limit = r.pick(n > 3 && !r.thorough() ? std::vector<double>{9} : std::vector<double>{1.5, 9}, "limit");
  const bool complete = r.flip("complete");
  const int threads = 2 + r.choose(2, "threads");
  std::vector<int> items;
  Partition start;
  Eigen::MatrixXd m(n, n);
  for (int i = 0; i < n; i++) {
    items.push_back(i);
    start.insert({i});
    for (int j = 0; j < n; j++) m(i, j) = t[(size_t)i][(size_t)j];
  }
  std::set<Partition> seen, allowed;
  outcomes(t, start, limit, complete, seen, allowed);
  sched::Scope s(r, r.bound(2, 2), threads);
  sched::cfg.access_points = true;
  // free choices between regions multiply: the order in which threads start is varied through the pre-emptions
  sched::cfg.ordered_start = true;
  judge(r, "matrix-based", t, limit, complete,
        Clusterer::Cluster(items, m, limit, complete ? shc::COMPLETE_LINK : shc::SINGLE_LINK), allowed);
  r.state(mc::cat(mc::str(t), limit, complete, threads));
}
#endif
