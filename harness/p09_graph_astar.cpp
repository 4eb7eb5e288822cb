// P09: graph A*, lazy A*, generic A* and random walks against exhaustive shortest paths.
#include "trap.hpp"

#include <Eigen/Core>
#include <arc_utilities/dijkstras.hpp>
using namespace arc_dijkstras;
typedef Graph<int> G;
typedef SimpleGraphAstar<int> A;
static const double INF = std::numeric_limits<double>::infinity();
struct E {
  int f, t;
  double w;
  int kind;  // 0 usable, 1 marked invalid, 2 infinite weight, 3 refused by the validity callback
};

static std::vector<double> to_goal(int n, const std::vector<E>& es, int goal, bool blocked_too) {
  std::vector<double> d((size_t)n, INF);
  d[(size_t)goal] = 0;
  for (int k = 0; k < n; k++)
    for (auto& e : es)
      if (e.kind == 0 || blocked_too) d[(size_t)e.f] = std::min(d[(size_t)e.f], e.w + d[(size_t)e.t]);
  return d;
}

// the path must use usable edges and cost exactly what the search says; each step may be any parallel edge
static void check_path(mc::Run& r, const arc_helpers::AstarResult& res, const std::vector<E>& es, int s, int g, double want, const std::string& who) {
  MC_CHECK(res.second == want, mc::cat(who, " cost ", res.second, " expected ", want));
  if (want == INF) {
    MC_CHECK(res.first.empty(), mc::cat(who, " returned a path without a cost: ", mc::str(res.first)));
    return;
  }
  MC_CHECK(!res.first.empty() && res.first.front() == s && res.first.back() == g, mc::cat(who, " path ends ", mc::str(res.first)));
  double total = 0;
  for (size_t i = 1; i < res.first.size(); i++) {
    double best = INF;
    for (auto& e : es)
      if (e.f == res.first[i - 1] && e.t == res.first[i] && e.kind == 0) best = std::min(best, e.w);
    MC_CHECK(best < INF, mc::cat(who, " path ", mc::str(res.first), " uses an unusable step"));
    total += best;
  }
  MC_CHECK(total == want, mc::cat(who, " path ", mc::str(res.first), " costs ", total, ", reported ", want));
}

static void check(mc::Run& r, int n, const std::vector<E>& es, int s, int goal, const std::vector<double>& h, bool simple_edges) {
  G g;
  for (int i = 0; i < n; i++) g.addNode(i);
  std::set<std::pair<int, int>> refused_pairs;
  for (auto& e : es) {
    g.addEdgeBetweenNodes(e.f, e.t, e.w);
    GraphEdge& out = g.getNode(e.f).getOutEdges().back();
    if (e.kind == 0 && (e.f + e.t) % 2) out.setValidity(VALID);
    if (e.kind == 1) out.setValidity(INVALID);
    if (e.kind == 2) out.setWeight(INF);
    if (e.kind == 3) refused_pairs.insert({e.f, e.t});
  }
  const double want = to_goal(n, es, goal, false)[(size_t)s];
  auto heur = [&](const int& a, const int& b) -> double {
    if (b != goal) r.fail(mc::cat("heuristic asked about goal ", b));
    return h[(size_t)a];
  };
  for (int dup = 0; dup < 2; dup++) {
    r.step();
    bool any3 = !refused_pairs.empty();
    if (!any3) check_path(r, A::PerformAstar(g, s, goal, heur, dup), es, s, goal, want, "eager search");
    // lazy search with an edge callback; remember what was validated
    std::set<std::pair<int64_t, int64_t>> asked;
    auto usable = [&](const G& sg, const GraphEdge& e) {
      if (&sg != &g) r.fail("validity callback got another graph");
      const bool ok = !e.isInvalid() && e.getWeight() < INF && !refused_pairs.count({(int)e.getFromIndex(), (int)e.getToIndex()});
      if (ok) asked.insert({e.getFromIndex(), e.getToIndex()});
      return ok;
    };
    auto cost = [&](const G&, const GraphEdge& e) {
      if (!asked.count({e.getFromIndex(), e.getToIndex()})) r.fail("cost asked for an edge that was not validated");
      return e.getWeight();
    };
    auto lazy = A::PerformLazyAstar(g, s, goal, std::function<bool(const G&, const GraphEdge&)>(usable), std::function<double(const G&, const GraphEdge&)>(cost), heur, dup);
    check_path(r, lazy, es, s, goal, want, "lazy search");
    for (size_t i = 1; i < lazy.first.size(); i++) MC_CHECK(asked.count({lazy.first[i - 1], lazy.first[i]}), "a step of the path was never validated");
    if (!simple_edges) continue;
    std::map<std::pair<int, int>, E> by;
    for (auto& e : es) by[{e.f, e.t}] = e;
    auto vok = [&](const int& a, const int& b) {
      if (!by.count({a, b})) r.fail("validity asked for a missing edge");
      return by[{a, b}].kind == 0;
    };
    auto vcost = [&](const int& a, const int& b) { return by.at({a, b}).w; };
    auto lv = A::PerformLazyAstar(g, s, goal, std::function<bool(const int&, const int&)>(vok), std::function<double(const int&, const int&)>(vcost), heur, dup);
    check_path(r, lv, es, s, goal, want, "lazy search on values");
    auto children = [&](const int64_t a) {
      std::vector<int64_t> c;
      for (auto& e : es)
        if (e.f == a) c.push_back(e.t);
      return c;
    };
    // the identifiers of a generic search may be any numbers
    static const std::vector<std::pair<const char*, int64_t>> NAMES = {{"", 0}, {" on ids from -1", -1}, {" on ids from -2", -2}, {" on ids from -3", -3}, {" on the lowest ids", INT64_MIN}, {" on the highest ids", INT64_MAX - 3}};
    for (size_t k = 0; k < NAMES.size(); k++) {
      if (n > 3 && k % 3 != 2 && k) continue;
      if (n > 4 && NAMES[k].second > 9) continue;
      const int64_t o = NAMES[k].second;
      auto ga = arc_helpers::GenericAstarSearch(
          s + o, goal + o,
          [&](const int64_t a) {
            std::vector<int64_t> c = children(a - o);
            for (auto& x : c) x += o;
            return c;
          },
          [&](const int64_t a, const int64_t b) { return vok((int)(a - o), (int)(b - o)); }, [&](const int64_t a, const int64_t b) { return vcost((int)(a - o), (int)(b - o)); },
          [&](const int64_t a, const int64_t b) { return heur((int)(a - o), (int)(b - o)); }, dup);
      for (auto& x : ga.first) x -= o;
      check_path(r, ga, es, s, goal, want, mc::cat("generic search", NAMES[k].first));
    }
    r.state(mc::cat(want, mc::str(lazy.first), mc::str(h), s, goal));
  }
  // same start and goal, and indices out of range, are refused
  for (int bad = 0; bad < 3; bad++) {
    const int a = bad == 0 ? s : bad == 1 ? -1 : n;
    if (bad == 0) MC_CHECK(trap::refused([&] { A::PerformAstar(g, s, s, [](const int&, const int&) { return 0.0; }, false); }), "start equal to goal accepted");
    else MC_CHECK(trap::refused([&] { A::PerformAstar(g, a, goal, heur, false); }) && trap::refused([&] { A::PerformAstar(g, s, a, [](const int&, const int&) { return 0.0; }, true); }), "index out of range accepted");
    if (n > 3) break;
  }
}

// every admissible heuristic for nodes with values from a small set, not only consistent ones
static std::vector<double> heuristic(mc::Run& r, int n, const std::vector<E>& es, int goal, const std::vector<double>& values) {
  const std::vector<double> d = to_goal(n, es, goal, false);
  std::vector<double> h((size_t)n, 0);
  for (int i = 0; i < n; i++) {
    if (i == goal) continue;
    std::vector<double> ok;
    for (double v : values)
      if (v <= d[(size_t)i]) ok.push_back(v);
    h[(size_t)i] = ok[(size_t)r.choose((int)ok.size(), "heuristic")];
  }
  return h;
}

MC_SCENARIO(three_nodes, "every directed graph on 2..3 nodes, each edge absent, of weight 0, 1 or 3, or unusable (marked invalid, infinite, refused by the callback), all admissible heuristics from {0,1,2,4}", 4) {
  const int n = 2 + r.choose(2, "nodes");
  std::vector<E> es;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i != j) {
        const int c = r.choose(r.bound(5, 7), "edge");
        if (c == 0) continue;
        es.push_back(E{i, j, c == 1 ? 0.0 : c == 2 ? 3.0 : 1.0, c <= 3 ? 0 : c == 4 ? 1 + (i + j + (i < j)) % 3 : c == 5 ? 1 : 3});
      }
  const int goal = n - 1;
  const std::vector<double> h = heuristic(r, n, es, goal, r.thorough() ? std::vector<double>{0, 1, 2, 4} : std::vector<double>{0, 1, 3});
  for (int s = 0; s < n - 1; s++) check(r, n, es, s, goal, h, true);
}
MC_SCENARIO(four_nodes, "four nodes: forward edges of a diamond with back edges; all weights from {1,2,4} or absent, all admissible heuristics from {0,2,4}, so nodes must be re-opened", 4) {
  std::vector<E> es;
  static const int P[][2] = {{0, 1}, {0, 2}, {1, 2}, {2, 1}, {1, 3}, {2, 3}, {0, 3}, {2, 0}};
  static const double W[] = {-1, 1, 4, 2};
  for (int i = 0; i < r.bound(7, 8); i++) {
    const int c = r.choose(i < 6 ? r.bound(3, 4) : 2, "edge");
    if (c) es.push_back(E{P[i][0], P[i][1], i == 6 ? 6 : W[c], 0});
  }
  check(r, 4, es, 0, 3, heuristic(r, 4, es, 3, {0, 2, 4}), true);
}
MC_SCENARIO(reopening, "five nodes: a cheap detour reached only after the expensive entry was expanded; all weights and admissible heuristics", 4) {
  static const double W[] = {1, 2, 5};
  std::vector<E> es = {E{0, 1, W[r.choose(3, "a")], 0}, E{0, 2, W[r.choose(3, "b")], 0}, E{1, 2, W[r.choose(3, "c")], 0}, E{2, 3, W[r.choose(3, "d")], 0}, E{1, 3, W[r.choose(3, "e")] + 1, 0}, E{3, 4, W[r.choose(3, "f")], 0}, E{2, 1, 0.5, 0}};
  check(r, 5, es, 0, 4, heuristic(r, 5, es, 4, r.thorough() ? std::vector<double>{0, 1, 3, 6} : std::vector<double>{0, 3, 6}), true);
}
MC_SCENARIO(parallel_edges, "all sequences of 4 edges on 3 nodes with parallel edges of different weight and usability", 3) {
  std::vector<E> es;
  for (int i = 0; i < r.bound(3, 4); i++) {
    const int c = r.choose(6, "edge"), f = c / 2, t = (f + 1 + c % 2) % 3, k = r.choose(4, "kind");
    es.push_back(E{f, t, k == 0 ? 1.0 : k == 1 ? 3.0 : 0.5, k < 2 ? 0 : k - 1});
  }
  for (int g = 1; g < 3; g++) check(r, 3, es, 0, g, heuristic(r, 3, es, g, {0, 1}), false);
}
MC_SCENARIO(scales, "three-node graphs with each edge absent or of weight 0, 1 or 3, and the five-node detour, scaled to tiny, huge and nearly equal weights, with admissible heuristics", 4) {
  const mc::Scale sc = r.scale();
  std::vector<E> es;
  const std::vector<double> hs = {0, sc(0), sc(1), sc(3)};
  if (r.flip("detour")) {
    auto w = [&] { return sc(1 + 2 * r.choose(2, "weight")); };
    es = {E{0, 1, w(), 0}, E{0, 2, w(), 0}, E{1, 2, w(), 0}, E{2, 3, w(), 0}, E{1, 3, w(), 0}, E{3, 4, w(), 0}, E{2, 1, sc(0.5), 0}};
    check(r, 5, es, 0, 4, heuristic(r, 5, es, 4, {0, sc(1), sc(3)}), true);
    return;
  }
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (i != j) {
        const int c = r.choose(4, "edge");
        if (c) es.push_back(E{i, j, sc(c == 1 ? 0 : c == 2 ? 1 : 3), 0});
      }
  const std::vector<double> h = heuristic(r, 3, es, 2, r.thorough() ? hs : std::vector<double>{0, sc(1)});
  for (int s = 0; s < 2; s++) check(r, 3, es, s, 2, h, true);
}

struct ChoiceGen {
  typedef uint64_t result_type;
  mc::Run* r;
  int budget;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~0ull; }
  uint64_t operator()() {
    // every residue of a range of up to 3 is reached by one of six evenly spaced values
    if (budget-- <= 0) throw mc::Prune();
    return (uint64_t)r->choose(6, "random value") * (~0ull / 6) + (~0ull / 12);
  }
};
MC_SCENARIO(random_walks, "every random outcome sequence of bounded length on every 3-node graph of absent, usable, invalid and infinitely expensive edges: the walk uses usable edges and repeats no node; it is refused only where a node has no usable edge", 3) {
  const int n = r.bound(3, 4);
  std::vector<E> es;
  int unusable = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i != j) {
        const int c = r.choose(n == 3 || unusable < 2 ? 4 : 2, "edge");
        unusable += c > 1;
        if (c) es.push_back(E{i, j, 1, c == 1 ? 0 : c == 2 ? 1 : 2});
      }
  const int goal = n - 1;
  G g;
  for (int i = 0; i < n; i++) g.addNode(i);
  std::string shown;
  std::vector<int> out((size_t)n, 0);
  for (auto& e : es) {
    g.addEdgeBetweenNodes(e.f, e.t, e.w);
    GraphEdge& edge = g.getNode(e.f).getOutEdges().back();
    if (e.kind == 0 && (e.f + e.t) % 2) edge.setValidity(VALID);
    if (e.kind == 1) edge.setValidity(INVALID);
    if (e.kind == 2) edge.setWeight(INF);
    out[(size_t)e.f] += e.kind == 0;
    shown += mc::cat(e.f, "->", e.t, ":", e.kind, " ");
  }
  ChoiceGen gen{&r, 4};
  const int s = r.choose(n, "start");
  std::vector<int64_t> path;
  const bool refused = trap::refused([&] { path = GraphRandomWalk<int>::PerformRandomWalk(g, s, goal, gen); });
  r.step();
  r.state(mc::cat(shown, mc::str(path)));
  if (refused) {
    bool stuck = false;
    for (int i = 0; i < goal; i++) stuck = stuck || !out[(size_t)i];
    MC_CHECK(stuck, mc::cat("walk refused on ", shown));
    return;
  }
  MC_CHECK(path.front() == s && path.back() == goal, mc::cat("walk ", mc::str(path)));
  std::set<int64_t> seen;
  for (size_t i = 0; i < path.size(); i++) {
    MC_CHECK(seen.insert(path[i]).second, mc::cat("walk repeats a node ", mc::str(path)));
    if (!i) continue;
    bool ok = false;
    for (auto& e : es) ok = ok || (e.f == path[i - 1] && e.t == path[i] && !e.kind);
    MC_CHECK(ok, mc::cat("walk ", mc::str(path), " uses a missing or unusable edge of ", shown));
  }
}
