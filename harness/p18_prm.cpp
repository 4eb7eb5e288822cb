// P18: probabilistic roadmaps over a four-point state space.
#include "trap.hpp"
#ifdef PAR
#include "sched.hpp"
#endif
#include <arc_utilities/math_helpers.hpp>
#include <arc_utilities/simple_prm_planner.hpp>
typedef simple_prm_planner::SimpleGeometricPrmPlanner PRM;
typedef arc_dijkstras::Graph<int> G;
static const double INF = std::numeric_limits<double>::infinity();
typedef std::pair<std::vector<int>, double> Path;

struct World {
  mc::Run& r;
  bool asym;
  int blocked;  // bit per unordered pair
  int invalid;  // state that is not valid, or -1
  size_t k;
  bool dup;
  int edge_calls = 0;
  mc::Scale scale{0, 1};
  double d(int a, int b) const {
    static const double x[] = {0, 1, 1, 3}, y[] = {0, 0, 1, 0};
    const double base = std::fabs(x[a] - x[b]) + std::fabs(y[a] - y[b]);
    const double v = base + (asym && b > a ? 0.5 * (b - a) : 0.0);
    return a == b ? 0.0 : scale(v);
  }
  static int bit(int a, int b) {
    if (a > b) std::swap(a, b);
    static const int B[4][4] = {{0, 0, 1, 2}, {0, 0, 3, 4}, {0, 0, 0, 5}, {0, 0, 0, 0}};
    return B[a][b];
  }
  bool ok(int a, int b) const { return a == b || !(blocked >> bit(a, b) & 1); }
  std::function<double(const int&, const int&)> dist() const {
    return [this](const int& a, const int& b) { return d(a, b); };
  }
  std::function<bool(const int&, const int&)> edge() const {
    return [this](const int& a, const int& b) { return ok(a, b); };
  }
  std::string str() const {
    return mc::cat("asymmetric=", asym, " blocked=", blocked, " invalid=", invalid, " k=", k, " duplicates=", dup);
  }
};
static std::string show(const G& g) {
  std::string s;
  for (size_t i = 0; i < g.getNodes().size(); i++) {
    s += mc::cat(i, "(", g.getNode((int64_t)i).getValue(), ")->");
    for (auto& e : g.getNode((int64_t)i).getOutEdges()) s += mc::cat(e.getToIndex(), ":", e.getWeight(), " ");
    s += "; ";
  }
  return s;
}
static int count_edges(const G& g, int64_t a, int64_t b, double* w) {
  int n = 0;
  for (auto& e : g.getNode(a).getOutEdges())
    if (e.getToIndex() == b) {
      n++;
      *w = e.getWeight();
      if (e.getFromIndex() != a) n += 100;
    }
  int m = 0;
  for (auto& e : g.getNode(b).getInEdges())
    if (e.getFromIndex() == a) {
      m++;
      if (e.getWeight() != *w || e.getToIndex() != b) m += 100;
    }
  return n == m ? n : 1000;
}
// Checks how node v was connected when it was added to the nodes before it. to_new: distances are measured node -> v.
static void check_added(World& w, const G& g, int64_t v, bool to_new) {
  const std::string in = mc::cat(w.str(), " roadmap ", show(g), " node ", v);
  const int sv = g.getNode(v).getValue();
  std::vector<double> ds;
  for (int64_t u = 0; u < v; u++) ds.push_back(to_new ? w.d(g.getNode(u).getValue(), sv) : w.d(sv, g.getNode(u).getValue()));
  std::vector<double> sorted = ds;
  std::sort(sorted.begin(), sorted.end());
  const size_t take = std::min(w.k, ds.size());
  const double thr = take ? sorted[take - 1] : -1;
  size_t closer = 0, tied_linked = 0, tied_invalid = 0, linked = 0;
  for (int64_t u = 0; u < v; u++) {
    const int su = g.getNode(u).getValue();
    double wf = 0, wb = 0;
    const int f = count_edges(g, u, v, &wf), b = count_edges(g, v, u, &wb);
    if (f != b || f > 1) w.r.fail(mc::cat(in, ": ", f, " edges from and ", b, " edges to node ", u));
    if (f) {
      linked++;
      if (!w.ok(su, sv)) w.r.fail(mc::cat(in, ": linked to ", u, " although the edge check rejects it"));
      if (wf != w.d(su, sv) || wb != w.d(sv, su)) w.r.fail(mc::cat(in, ": wrong weights to node ", u));
      if (ds[(size_t)u] > thr) w.r.fail(mc::cat(in, ": linked to ", u, " which is not among the nearest"));
    }
    if (ds[(size_t)u] < thr) {
      closer++;
      if (!f && w.ok(su, sv)) w.r.fail(mc::cat(in, ": not linked to near node ", u));
    } else if (ds[(size_t)u] == thr) {
      if (f) tied_linked++;
      if (!w.ok(su, sv)) tied_invalid++;
    }
  }
  const size_t slots = take - std::min(take, closer);
  if (tied_linked > slots || tied_linked + tied_invalid < slots) w.r.fail(in + ": wrong number of nearest nodes linked");
  double x = 0;
  if (count_edges(g, v, v, &x)) w.r.fail(in + ": linked to itself");
}
// Nodes from `first` on were added in order; to_new(i) tells the direction of the distances used.
static void check_roadmap(World& w, const G& g) {
  if (!g.checkGraphLinkage()) w.r.fail(w.str() + ": edges are not mirrored in " + show(g));
  for (size_t v = 0; v < g.getNodes().size(); v++) check_added(w, g, (int64_t)v, true);
}
template <typename F>
static double shortest(const G& g, const std::vector<int64_t>& from, int64_t to, F cost) {
  std::vector<double> d(g.getNodes().size(), INF);
  for (int64_t f : from) d[(size_t)f] = 0;
  for (size_t round = 0; round <= d.size(); round++)
    for (size_t u = 0; u < d.size(); u++)
      for (auto& e : g.getNode((int64_t)u).getOutEdges())
        d[(size_t)e.getToIndex()] = std::min(d[(size_t)e.getToIndex()], d[u] + cost(e));
  return d[(size_t)to];
}
static void check_path(World& w, const char* what, const G& g, const Path& p, const std::set<int>& starts,
                       const std::set<int>& goals, double want) {
  const std::string in = mc::cat(w.str(), " roadmap ", show(g), " ", what, " gives ", mc::str(p.first), " at ", p.second);
  if (p.second != want) w.r.fail(mc::cat(in, ", cheapest is ", want));
  if (want == INF) {
    if (!p.first.empty()) w.r.fail(in + ": a path although there is none");
    return;
  }
  if (p.first.empty() || !starts.count(p.first.front()) || !goals.count(p.first.back()))
    w.r.fail(in + ": does not lead from a start to a goal");
  double sum = 0;
  for (size_t i = 0; i + 1 < p.first.size(); i++) {
    if (!w.ok(p.first[i], p.first[i + 1])) w.r.fail(in + ": uses a rejected edge");
    sum += w.d(p.first[i], p.first[i + 1]);
  }
  if (sum != p.second) w.r.fail(in + ": cost is not the length of the path");
}
static int64_t find_state(const G& g, int s) {
  for (size_t i = g.getNodes().size(); i-- > 0;)
    if (g.getNode((int64_t)i).getValue() == s) return (int64_t)i;
  return -1;
}
static bool same(const G& a, const G& b) { return show(a) == show(b); }

static G build(World& w, const std::vector<int>& samples, const G* base = nullptr) {
  size_t next = 0;
  bool asked = false;
  const std::function<int()> sample = [&] {
    if (!asked) w.r.fail("sampled without consulting the termination check");
    asked = false;
    return samples[next++];
  };
  const std::function<bool()> stop = [&] {
    asked = true;
    return next >= samples.size();
  };
  const std::function<bool(const int&)> valid = [&](const int& s) { return s != w.invalid; };
  G g;
  if (base) {
    g = *base;
    PRM::ExtendRoadMap<int>(g, sample, w.dist(), valid, w.edge(), stop, w.k, !w.asym, w.dup);
  } else {
    g = PRM::BuildRoadMap<int>(sample, w.dist(), valid, w.edge(), stop, w.k, !w.asym, w.dup);
  }
  if (next != samples.size()) w.r.fail("stopped before the termination check said so");
  return g;
}
static World world(mc::Run& r, bool small) {
  World w{r, r.flip("asymmetric"), 0, -1, 0, false};
  w.k = (size_t)r.pick(small ? std::vector<int>{1, 3} : std::vector<int>{0, 1, 2, 3}, "k");
  w.blocked = small ? r.pick(std::vector<int>{0, 1, 8, 5, 63}, "blocked") : r.choose(64, "blocked");
  return w;
}

#ifndef PAR
MC_SCENARIO(build_and_extend, "every sequence of up to 4 (thorough 5) samples of 4 states (split into a build and an extension), with none or one state invalid, with and without duplicates, every k in 0..3, 64 edge validity relations (quick: 14), symmetric and asymmetric distances", 4) {
  World w{r, r.flip("asymmetric"), 0, -1, 0, false};
  w.k = (size_t)r.choose(4, "k");
  w.blocked = r.thorough() ? r.choose(64, "blocked") : r.pick(std::vector<int>{0, 1, 2, 4, 8, 16, 32, 5, 9, 18, 33, 14, 62, 63}, "blocked");
  w.dup = r.flip("duplicates");
  w.invalid = r.choose(2, "invalid") ? 1 : -1;
  const int n = r.choose(r.bound(5, 6), "samples");
  std::vector<int> s;
  for (int i = 0; i < n; i++) s.push_back(r.choose(4, "sample"));
  G g = build(w, s);
  std::vector<int> nodes;
  for (int x : s)
    if (x != w.invalid && (w.dup || w.k == 0 || std::find(nodes.begin(), nodes.end(), x) == nodes.end())) nodes.push_back(x);
  auto values = [](const G& m) {
    std::vector<int> v;
    for (auto& nd : m.getNodes()) v.push_back(nd.getValue());
    return v;
  };
  if (values(g) != nodes) r.fail(mc::cat(w.str(), " samples ", mc::str(s), " give nodes ", mc::str(values(g))));
  check_roadmap(w, g);
  for (size_t cut = 0; cut <= s.size(); cut += 2) {
    G a = build(w, std::vector<int>(s.begin(), s.begin() + (long)cut));
    a = build(w, std::vector<int>(s.begin() + (long)cut, s.end()), &a);
    if (values(a) != nodes) r.fail(mc::cat(w.str(), " extension with ", mc::str(s), " gives nodes ", mc::str(values(a))));
    check_roadmap(w, a);
  }
  r.step();
  r.state(w.str() + show(g));
}
static void queries(World& w, const G& g, int start, int goal) {
  mc::Run& r = w.r;
  auto weight = [](const arc_dijkstras::GraphEdge& e) { return e.getWeight(); };
  for (int lim = 0; lim < 2; lim++) {
    G g2 = g;
    Path p = PRM::QueryPathAndAddNodesSingleStartSingleGoal<int>(start, goal, g2, w.edge(), w.dist(), w.k, !w.asym, w.dup, lim != 0);
    const int64_t s = find_state(g2, start), t = find_state(g2, goal);
    if (s < 0 || t < 0 || !g2.checkGraphLinkage()) r.fail(w.str() + ": start or goal is missing in " + show(g2));
    check_path(w, "A* query", g2, p, {start}, {goal}, shortest(g2, {s}, t, weight));
    if (g2.getNodes().size() > g.getNodes().size()) {  // how the new nodes were connected
      int64_t v = (int64_t)g.getNodes().size();
      if (g2.getNode(v).getValue() == start && (w.dup || find_state(g, start) < 0)) {
        check_added(w, g2, v, false);
        v++;
      }
      if (v < (int64_t)g2.getNodes().size()) check_added(w, g2, v, true);
    }
    Path q = PRM::QueryPathSingleStartSingleGoal<int>(start, goal, g, w.edge(), w.dist(), w.k, !w.asym, w.dup, lim != 0);
    check_path(w, "read-only A* query", g2, q, {start}, {goal}, p.second);
    r.step();
  }
}
static std::vector<int> some_samples(mc::Run& r) {
  static const std::vector<std::vector<int>> S = {{}, {0}, {1, 2}, {2, 0, 1}, {0, 1, 2}, {0, 1, 2, 3}, {3, 1, 0, 2}, {1, 1, 2}, {2, 3, 3, 1}};
  return r.pick(S, "samples");
}
MC_SCENARIO(single_queries, "nine roadmaps, all 64 edge validity relations, every k in 1..3, symmetric and asymmetric distances, every start and different goal: A* and its read-only form", 3) {
  World w{r, r.flip("asymmetric"), r.choose(64, "blocked"), -1, 0, false};
  w.k = 1 + (size_t)r.choose(3, "k");
  w.dup = r.flip("duplicates");
  const G g = build(w, some_samples(r));
  const int start = r.choose(4, "start"), goal = (start + 1 + r.choose(3, "goal")) % 4;
  queries(w, g, start, goal);
  r.state(w.str() + show(g) + mc::cat(start, goal));
}
MC_SCENARIO(lazy_queries, "nine roadmaps built with every single blocked pair, then queried lazily in every environment of 64: only edges valid now are used", 3) {
  World w{r, r.flip("asymmetric"), 0, -1, 0, false};
  w.k = 1 + (size_t)r.choose(3, "k");
  const int old = r.choose(7, "built with");
  w.blocked = old ? 1 << (old - 1) : 0;
  G g = build(w, some_samples(r));
  w.blocked = r.choose(64, "blocked");
  const int start = r.choose(4, "start"), goal = (start + 1 + r.choose(3, "goal")) % 4;
  for (int lim = 0; lim < 2; lim++) {
    G g2 = g;
    Path p = PRM::LazyQueryPathAndAddNodesSingleStartSingleGoal<int>(start, goal, g2, w.edge(), w.dist(), w.k, !w.asym, false, lim != 0);
    const int64_t s = find_state(g2, start), t = find_state(g2, goal);
    const double want = shortest(g2, {s}, t, [&](const arc_dijkstras::GraphEdge& e) {
      const int a = g2.getNode(e.getFromIndex()).getValue(), b = g2.getNode(e.getToIndex()).getValue();
      return w.ok(a, b) ? w.d(a, b) : INF;
    });
    check_path(w, "lazy query", g2, p, {start}, {goal}, want);
    Path q = PRM::LazyQueryPathSingleStartSingleGoal<int>(start, goal, g, w.edge(), w.dist(), w.k, !w.asym, false, lim != 0);
    check_path(w, "read-only lazy query", g2, q, {start}, {goal}, want);
  }
  r.step();
  r.state(w.str() + show(g) + mc::cat(start, goal));
}
MC_SCENARIO(scales, "nine roadmaps with every distance tiny, huge or nearly equal to all others, three environments, k from 1 to 3: built as linked, queried by A* and its read-only form", 3) {
  World w{r, r.flip("asymmetric"), 0, -1, 0, false};
  w.scale = r.scale();
  w.blocked = r.pick(std::vector<int>{0, 1, 8}, "blocked");
  w.k = 1 + (size_t)r.choose(3, "k");
  const G g = build(w, some_samples(r));
  check_roadmap(w, g);
  const int start = r.choose(4, "start"), goal = (start + 1 + r.choose(3, "goal")) % 4;
  queries(w, g, start, goal);
  r.state(w.str() + show(g) + mc::cat(start, goal, w.scale.offset, w.scale.unit));
}
MC_SCENARIO(refresh, "nine roadmaps built in every environment with at most one blocked pair and refreshed (also for the second time, after almost everything was blocked) in every environment of 64; then queried", 3) {
  World w{r, r.flip("asymmetric"), 0, -1, 0, false};
  w.k = 1 + (size_t)r.choose(3, "k");
  const int old = r.choose(7, "built with");
  w.blocked = old ? 1 << (old - 1) : 0;
  G g = build(w, some_samples(r));
  const G before = g;
  if (r.flip("refreshed before")) {  // in another environment: what it blocked comes back
    w.blocked = 63 ^ (old ? 1 << (old - 1) : 0);
    PRM::UpdateRoadMapEdges<int>(g, w.edge(), w.dist());
  }
  w.blocked = r.choose(64, "blocked");
  PRM::UpdateRoadMapEdges<int>(g, w.edge(), w.dist());
  if (!g.checkGraphLinkage() || g.getNodes().size() != before.getNodes().size()) r.fail(w.str() + ": damaged roadmap " + show(g));
  for (size_t i = 0; i < g.getNodes().size(); i++) {
    auto& now = g.getNode((int64_t)i).getOutEdges();
    auto& then = before.getNode((int64_t)i).getOutEdges();
    if (now.size() != then.size()) r.fail(w.str() + ": edges lost in " + show(g));
    for (size_t e = 0; e < now.size(); e++) {
      const int a = g.getNode((int64_t)i).getValue(), b = g.getNode(now[e].getToIndex()).getValue();
      double wt = 0;
      if (count_edges(g, (int64_t)i, now[e].getToIndex(), &wt) != 1) r.fail(w.str() + ": the two ends of an edge differ in " + show(g));
      if (now[e].getToIndex() != then[e].getToIndex() || wt != (w.ok(a, b) ? w.d(a, b) : INF))
        r.fail(w.str() + ": wrong edge after the refresh in " + show(g) + " before " + show(before));
    }
  }
  const int start = r.choose(4, "start"), goal = (start + 1) % 4;
  auto weight = [](const arc_dijkstras::GraphEdge& e) { return e.getWeight(); };
  G g2 = g;
  Path p = PRM::QueryPathAndAddNodesSingleStartSingleGoal<int>(start, goal, g2, w.edge(), w.dist(), w.k, !w.asym, false);
  check_path(w, "A* query", g2, p, {start}, {goal}, shortest(g2, {find_state(g2, start)}, find_state(g2, goal), weight));
  G g3 = g;
  Path q = PRM::QueryPathAndAddNodesMultiStartSingleGoal<int>({start}, goal, g3, w.edge(), w.dist(), w.k, !w.asym, false);
  check_path(w, "Dijkstra query", g3, q, {start}, {goal}, shortest(g3, {find_state(g3, start)}, find_state(g3, goal), weight));
  r.step();
  r.state(w.str() + show(g));
}
MC_SCENARIO(multi_queries, "nine roadmaps, 64 environments: every one or two starts and every one or two goals (also a start that is a goal)", 3) {
  World w{r, r.flip("asymmetric"), r.choose(64, "blocked"), -1, 0, false};
  w.k = r.flip("k") ? 3 : 1;
  w.dup = r.flip("duplicates");
  const G g = build(w, some_samples(r));
  auto weight = [](const arc_dijkstras::GraphEdge& e) { return e.getWeight(); };
  static const std::vector<std::vector<int>> SETS = {{0}, {1}, {3}, {0, 2}, {3, 1}, {2, 2}};
  const std::vector<int> starts = r.pick(SETS, "starts"), goals = r.pick(SETS, "goals");
  double best = INF;
  for (int goal : goals) {
    G g2 = g;
    Path p = PRM::QueryPathAndAddNodesMultiStartSingleGoal<int>(starts, goal, g2, w.edge(), w.dist(), w.k, !w.asym, w.dup);
    std::vector<int64_t> from;
    const int64_t base = (int64_t)g.getNodes().size();
    for (size_t i = 0; i < starts.size(); i++)
      from.push_back(w.dup ? base + (int64_t)i : find_state(g2, starts[i]));
    const int64_t t = w.dup ? (int64_t)g2.getNodes().size() - 1 : find_state(g2, goal);
    const double want = shortest(g2, from, t, weight);
    check_path(w, "multi-start query", g2, p, std::set<int>(starts.begin(), starts.end()), {goal}, want);
    Path q = PRM::QueryPathMultiStartSingleGoal<int>(starts, goal, g, w.edge(), w.dist(), w.k, !w.asym, w.dup);
    check_path(w, "read-only multi-start query", g2, q, std::set<int>(starts.begin(), starts.end()), {goal}, want);
    best = std::min(best, want);
  }
  Path p = PRM::QueryPathMultiStartMultiGoal<int>(starts, goals, g, w.edge(), w.dist(), w.k, !w.asym, w.dup);
  check_path(w, "multi-goal query", g, p, std::set<int>(starts.begin(), starts.end()), std::set<int>(goals.begin(), goals.end()), best);
  r.step();
  r.state(w.str() + show(g) + mc::cat(mc::str(starts), mc::str(goals)));
}
struct Walk {  // random engine whose draws are explored; the walk is followed for a bounded number of steps
  typedef uint32_t result_type;
  mc::Run& r;
  int left;
  static constexpr uint32_t min() { return 0; }
  static constexpr uint32_t max() { return 0xffffffffu; }
  uint32_t operator()() {
    if (left-- <= 0) throw mc::Prune();
    return (uint32_t)((((uint64_t)r.choose(6, "draw") << 32) + (1ull << 31)) / 6);
  }
};
MC_SCENARIO(random_walks, "five connected environments on the full roadmap, five changes of environment with refreshed edges: every random walk of up to 4 (thorough 6) steps ends in a simple path of passable edges", 3) {
  World w{r, r.flip("asymmetric"), 0, -1, 3, false};
  w.blocked = r.pick(std::vector<int>{0, 1, 2, 12, 18}, "blocked");
  G g = build(w, {0, 1, 2, 3});
  const int change = r.pick(std::vector<int>{0, 1, 6, 20, 37}, "changed");
  if (change) {
    w.blocked ^= change;
    PRM::UpdateRoadMapEdges<int>(g, w.edge(), w.dist());
  }
  const int start = r.choose(4, "start"), goal = (start + 1 + r.choose(3, "goal")) % 4;
  Walk gen{r, r.bound(4, 6)};
  Path p;
  const std::string at = mc::cat(w.str(), " changed=", change, " walk from ", start, " to ", goal);
  // a walk that is caught on nodes without a passable edge cannot end and may only be refused
  if (trap::refused([&] { p = PRM::QueryPathAndAddNodesSingleStartSingleGoalRandomWalk<int>(start, goal, gen, g, w.edge(), w.dist(), w.k, !w.asym); })) {
    double best = 0;
    for (int s = 0; s < 4; s++) {
      double n = 0;
      for (auto& e : g.getNode(find_state(g, s)).getOutEdges()) n += e.getWeight() < INF;
      if (!n) best = INF;
    }
    if (best != INF) r.fail(at + ": refused although every state has a passable edge");
    r.step();
    r.state(at + " refused");
    return;
  }
  const std::string in = mc::cat(at, mc::str(p.first), " ", p.second);
  double sum = 0;
  if (p.first.empty() || p.first.front() != start || p.first.back() != goal) r.fail(in + ": wrong ends");
  if (std::set<int>(p.first.begin(), p.first.end()).size() != p.first.size()) r.fail(in + ": repeats a state");
  for (size_t i = 0; i + 1 < p.first.size(); i++) {
    double wt = 0;
    if (!count_edges(g, find_state(g, p.first[i]), find_state(g, p.first[i + 1]), &wt)) r.fail(in + ": not an edge");
    if (!w.ok(p.first[i], p.first[i + 1])) r.fail(in + ": uses a rejected edge");
    sum += w.d(p.first[i], p.first[i + 1]);
  }
  if (sum != p.second) r.fail(in + ": wrong length");
  r.step();
  r.state(in);
}
#else
MC_SCENARIO(threads, "roadmaps of up to 4 samples, refreshed in another environment, on 1..3 threads started in turn with up to 2 departures", 3) {
  World w = world(r, true);
  const std::vector<int> s = r.pick(std::vector<std::vector<int>>{{0, 1, 2}, {3, 1, 0, 2}, {1, 1, 2}}, "samples");
  sched::Scope sc(r, 2, 1 + r.choose(3, "threads"));
  sched::cfg.access_points = false;
  sched::cfg.ordered_start = true;
  G g = build(w, s);
  check_roadmap(w, g);
  w.blocked ^= 9;
  PRM::UpdateRoadMapEdges<int>(g, w.edge(), w.dist());
  for (size_t i = 0; i < g.getNodes().size(); i++)
    for (auto& e : g.getNode((int64_t)i).getOutEdges()) {
      const int a = g.getNode((int64_t)i).getValue(), b = g.getNode(e.getToIndex()).getValue();
      double wt = 0;
      if (count_edges(g, (int64_t)i, e.getToIndex(), &wt) != 1 || wt != (w.ok(a, b) ? w.d(a, b) : INF))
        r.fail(w.str() + ": wrong edge after the refresh in " + show(g));
    }
  r.state(w.str() + show(g));
}
MC_SCENARIO(races, "adding a third node and refreshing the edges on 2 and 3 threads, pre-emption at every shared access (at most 1, thorough 2)", 3) {
  World w{r, r.flip("asymmetric"), r.pick(std::vector<int>{0, 1}, "blocked"), -1, 2, false};
  const int threads = 2 + r.choose(2, "threads");
  const bool refresh = r.flip("refresh");
  G g = build(w, refresh ? std::vector<int>{0, 1, 2} : std::vector<int>{0, 1});
  sched::Scope sc(r, r.bound(1, 2), threads);
  sched::cfg.ordered_start = true;
  if (!refresh) {
    g = build(w, {2}, &g);
    sched::cfg.run = nullptr;
    check_roadmap(w, g);
  } else {
    w.blocked ^= 9;
    PRM::UpdateRoadMapEdges<int>(g, w.edge(), w.dist());
    for (size_t i = 0; i < g.getNodes().size(); i++)
      for (auto& e : g.getNode((int64_t)i).getOutEdges()) {
        const int a = g.getNode((int64_t)i).getValue(), b = g.getNode(e.getToIndex()).getValue();
        double wt = 0;
        if (count_edges(g, (int64_t)i, e.getToIndex(), &wt) != 1 || wt != (w.ok(a, b) ? w.d(a, b) : INF))
          r.fail(w.str() + ": wrong edge after the refresh in " + show(g));
      }
  }
  r.state(w.str() + show(g));
}
#endif
