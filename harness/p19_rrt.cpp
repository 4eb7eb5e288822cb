// P19: RRT and BiRRT planners under every sequence of samples, nearest neighbours, propagations, goals and random draws.
#include "trap.hpp"

#include <arc_utilities/simple_rrt_planner.hpp>
#include <time.h>

// The planners' time limit is measured on this clock, which the harness moves.
static bool g_fake = false;
static int64_t g_now = 0;
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  if (g_fake) return time_point(duration(g_now));
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return time_point(duration((int64_t)ts.tv_sec * 1000000000 + ts.tv_nsec));
}
}}}
struct FakeClock {
  FakeClock() { g_fake = true; g_now = 1000000000; }
  ~FakeClock() { g_fake = false; }
};

struct State {
  int id = -1;
  bool goal = false;
};
typedef simple_rrt_planner::SimpleRRTPlannerState<State> Node;
typedef std::vector<Node> Tree;
typedef std::vector<State> Path;
typedef std::vector<std::pair<State, int64_t>> Grown;
template <class F> using fn = std::function<F>;
using RRT = simple_rrt_planner::SimpleHybridRRTPlanner;
using BiRRT = simple_rrt_planner::SimpleHybridBiRRTPlanner;

// uniform engine whose draws are midpoints of equal cells
struct Draws {
  typedef uint64_t result_type;
  static constexpr uint64_t min() { return 0; }
  static constexpr uint64_t max() { return ~(uint64_t)0; }
  fn<double()> unit;
  uint64_t operator()() { return (uint64_t)(unit() * 18446744073709551616.0); }
};

// What a tree should contain, built from what the callbacks were asked and answered.
struct Model {
  std::vector<State> states;
  std::vector<int64_t> parent;
  int64_t add(const State& s, int64_t p) {
    states.push_back(s);
    parent.push_back(p);
    return (int64_t)states.size() - 1;
  }
  std::vector<int> chain(int64_t i) const {
    std::vector<int> c;
    for (; i >= 0; i = parent[(size_t)i]) c.insert(c.begin(), states[(size_t)i].id);
    return c;
  }
  int64_t find(int id) const {
    for (size_t i = 0; i < states.size(); i++)
      if (states[i].id == id) return (int64_t)i;
    return -1;
  }
};
static std::vector<int> ids(const Path& p) {
  std::vector<int> v;
  for (auto& s : p) v.push_back(s.id);
  return v;
}
static void same_tree(mc::Run& r, const char* when, const Tree& t, const Model& m) {
  bool ok = t.size() == m.states.size();
  for (size_t i = 0; ok && i < t.size(); i++) {
    std::set<int64_t> want, have(t[i].GetChildIndices().begin(), t[i].GetChildIndices().end());
    for (size_t j = 0; j < m.parent.size(); j++)
      if (m.parent[j] == (int64_t)i) want.insert((int64_t)j);
    ok = t[i].IsInitialized() && t[i].GetValueImmutable().id == m.states[i].id && t[i].GetParentIndex() == m.parent[i] &&
         have == want && have.size() == t[i].GetChildIndices().size();
  }
  std::string got;
  for (auto& n : t) got += mc::cat(" [", n.GetValueImmutable().id, " parent ", n.GetParentIndex(), " children ", mc::str(n.GetChildIndices()), "]");
  if (!ok) r.fail(mc::cat("tree ", when, " is", got, ", expected parents ", mc::str(m.parent)));
  if (!RRT::CheckTreeLinkage(t)) r.fail(mc::cat("valid tree ", when, " fails its own check:", got));
}
// shapes of a propagation: relative parents of the new states
static const std::vector<std::vector<int64_t>> SHAPES = {{}, {-1}, {-1, 0}, {-1, -1}, {-1, 0, 1}, {-1, 0, 0}, {-1, -1, 0}, {-1, 0, -1}, {-1, -1, 1}};

struct Search {
  mc::Run& r;
  Model m;
  int next_id = 0, iterations = 0, limit = 0, shapes = 0, checks = 0, sampled = 0, failed = 0, ok = 0;
  bool stop_asked = false, no_neighbour = false, never = false;
  int sample_id = -1;
  int64_t near = -1;
  std::vector<int64_t> goals, told;   // goal states in the order they were added / reported
  size_t added_told = 0;
  Grown last;
  size_t last_checked = 0;
  int64_t grown_from = -1;            // model index of the first state of the last propagation
  bool choose_goals = true;
  std::set<int> goal_ids;             // instead of a choice per state
  State make(const char* what) {
    const int id = next_id++;
    return State{id, choose_goals ? r.flip(what) : goal_ids.count(id) > 0};
  }
  void expect_end() {
    if (told != goals) r.fail(mc::cat("goal states reported ", mc::str(told), ", reached ", mc::str(goals)));
  }
  // called by the planner
  int64_t nearest(const Tree& t, const State& s) {
    if (s.id != sample_id) r.fail(mc::cat("nearest neighbour asked for state ", s.id, ", sampled ", sample_id));
    same_tree(r, "given to the neighbour search", t, m);
    near = (int64_t)r.choose((int)t.size() + (no_neighbour ? 1 : 0), "nearest");
    if (near == (int64_t)t.size()) {
      near = -1;
      never = true;
    }
    return near;
  }
  Grown propagate(const State& from, const State& to) {
    if (from.id != m.states[(size_t)near].id || to.id != sample_id)
      r.fail(mc::cat("propagation asked from ", from.id, " to ", to.id, ", nearest is ", m.states[(size_t)near].id, ", sample ", sample_id));
    auto& shape = SHAPES[(size_t)r.choose(shapes, "shape")];
    last.clear();
    grown_from = (int64_t)m.states.size();
    for (int64_t p : shape) {
      const State s = make("goal");
      last.push_back({s, p});
      const int64_t at = m.add(s, p < 0 ? near : grown_from + p);
      if (s.goal) goals.push_back(at);
    }
    (shape.empty() ? failed : ok)++;
    r.step();
    return last;
  }
  bool stop() {
    if (stop_asked || never) r.fail("asked again whether to stop after it was told to, or no neighbour was left");
    checks++;
    stop_asked = iterations >= limit;
    return stop_asked;
  }
  State sample() {
    if (stop_asked || never) r.fail("sampled after the search was told to stop");
    iterations++;
    sample_id = 1000 + iterations;
    return State{sample_id, false};
  }
  bool is_goal(const State& s) { return s.goal; }
  void reached(const Tree& t, int64_t i) {
    if (i < 0 || i >= (int64_t)t.size() || !t[(size_t)i].GetValueImmutable().goal) r.fail("goal callback for a state that is not a goal");
    told.push_back(i);
  }
  void check_stats(std::map<std::string, double> st, size_t solutions, size_t states) {
    if (st["total_samples"] != failed + ok || st["successful_samples"] != ok || st["failed_samples"] != failed ||
        st["solutions"] != (double)solutions || st["total_states"] != (double)states || !(st["planning_time"] >= 0))
      r.fail(mc::cat("statistics: total ", st["total_samples"], " successful ", st["successful_samples"], " failed ", st["failed_samples"],
                     " solutions ", st["solutions"], " states ", st["total_states"], "; expected ", failed + ok, " ", ok, " ", failed, " ", solutions, " ", states));
  }
};
#define FNS(S)                                                                                      \
  fn<int64_t(const Tree&, const State&)> nn = [&](const Tree& t, const State& x_) { return S.nearest(t, x_); }; \
  fn<bool(const State&)> goal_fn = [&](const State& x_) { return S.is_goal(x_); };                    \
  fn<void(Tree&, const int64_t)> goal_cb = [&](Tree& t, const int64_t i) { S.reached(t, i); };      \
  fn<State()> smp = [&] { return S.sample(); };                                                     \
  fn<Grown(const State&, const State&)> prop = [&](const State& a, const State& b) { return S.propagate(a, b); }; \
  fn<bool()> stop = [&] { return S.stop(); };                                                       \
  fn<void(Tree&, const int64_t)> added = [&](Tree& t, const int64_t i) {                            \
    S.added_told++;                                                                                 \
    if (i != (int64_t)t.size() - 1 || t.back().GetValueImmutable().id != S.m.states[(size_t)i].id)  \
      S.r.fail("a state other than the new one was announced");                                     \
  };                                                                                                \
  (void)goal_cb; (void)stop; (void)added; (void)goal_fn; (void)nn; (void)prop; (void)smp;

static std::vector<std::vector<int>> all_ids(const std::vector<Path>& ps) {
  std::vector<std::vector<int>> v;
  for (auto& p : ps) v.push_back(ids(p));
  return v;
}
static void check_paths(Search& s, const std::vector<Path>& paths) {
  std::vector<std::vector<int>> want;
  for (int64_t g : s.goals) want.push_back(s.m.chain(g));
  if (all_ids(paths) != want) {
    std::string a, b;
    for (auto& p : paths) a += mc::str(ids(p));
    for (auto& p : want) b += mc::str(p);
    s.r.fail(mc::cat("paths returned ", a, ", the propagations give ", b));
  }
}

MC_SCENARIO(multi_path, "every search of up to 3 (thorough 4) samples: every nearest neighbour (or none), 4-9 propagation shapes, every set of goal states; all entry points that return several paths", 4) {
  Search s{r};
  const int form = r.choose(3, "form");
  s.limit = r.choose(r.bound(4, 5), "samples");
  s.shapes = s.limit >= 3 ? 4 : form ? 5 : 9;
  s.no_neighbour = form == 0;
  FNS(s);
  const State start = s.make("start is goal");
  s.m.add(start, -1);
  if (start.goal) s.goals.push_back(0);
  Tree t;
  const bool dirty = form == 1 && r.flip("tree in use");
  if (dirty) t.push_back(Node(State{77, true}));
  auto res = form == 0 ? RRT::PlanMultiPath(start, nn, goal_fn, goal_cb, smp, prop, stop)
           : form == 1 ? RRT::PlanMultiPath(t, start, nn, goal_fn, goal_cb, smp, prop, stop)
                       : (t.push_back(Node(start)), RRT::PlanMultiPath(t, nn, added, goal_fn, goal_cb, smp, prop, stop));
  if (form) same_tree(r, "after the search", t, s.m);
  if (form == 2 && s.added_told != s.m.states.size() - 1) r.fail("not every new state was announced");
  if (s.iterations != s.limit && !s.never) r.fail("search ended early");
  s.expect_end();
  check_paths(s, res.first);
  s.check_stats(res.second, s.goals.size(), s.m.states.size());
  r.state(mc::cat(form, mc::str(s.m.parent), mc::str(s.goals)));
}
// propagations of many states: star, chain, comb, binary tree, two interleaved chains
static std::vector<int64_t> big_shape(int kind, int n) {
  std::vector<int64_t> v;
  for (int i = 0; i < n; i++) v.push_back(i == 0 || kind == 0 ? -1 : kind == 1 ? i - 1 : kind == 2 ? (i % 2 ? i - 1 : i - 2) : kind == 3 ? (i - 1) / 2 : i == 1 ? -1 : i - 2);
  return v;
}
MC_SCENARIO(big_growth, "two propagations of 1 to 33 (thorough 70) states in five shapes (star, chain, comb, binary tree, interleaved chains) with one, two or all of the states goals, the second from the root, the middle or the newest state: links and paths exact", 3) {
  Search s{r};
  const int n1 = r.pick(r.thorough() ? std::vector<int>{1, 4, 5, 9, 16, 17, 33, 70} : std::vector<int>{1, 4, 6, 9, 17, 33}, "first size"), n2 = r.pick(std::vector<int>{2, 5, 12}, "second size");
  const std::vector<std::vector<int64_t>> table{big_shape(r.choose(5, "first shape"), n1), big_shape(r.choose(5, "second shape"), n2)};
  s.choose_goals = false;
  const int gk = r.choose(4, "goals"), from = r.choose(3, "second from");
  for (int i = 1; i <= n1 + n2; i++)
    if (gk == 3 || (gk == 0 && i == n1) || (gk == 1 && i == n1 + n2) || (gk == 2 && (i == (n1 + 1) / 2 || i == n1 + n2 / 2))) s.goal_ids.insert(i);
  s.limit = 2;
  FNS(s);
  // the choices of the search itself are fixed
  nn = [&](const Tree& t, const State&) {
    same_tree(r, "given to the neighbour search", t, s.m);
    return s.near = s.iterations == 1 || from == 0 ? 0 : from == 1 ? (int64_t)t.size() / 2 : (int64_t)t.size() - 1;
  };
  prop = [&](const State& f, const State& to) {
    if (f.id != s.m.states[(size_t)s.near].id || to.id != s.sample_id) r.fail("propagation asked from or to another state");
    Grown g;
    const int64_t base = (int64_t)s.m.states.size();
    for (int64_t p : table[(size_t)s.iterations - 1]) {
      const State x = s.make("goal");
      g.push_back({x, p});
      const int64_t at = s.m.add(x, p < 0 ? s.near : base + p);
      if (x.goal) s.goals.push_back(at);
    }
    s.ok++;
    r.step();
    return g;
  };
  s.m.add(s.make("start"), -1);
  Tree t(1, Node(s.m.states[0]));
  auto res = RRT::PlanMultiPath(t, nn, added, goal_fn, goal_cb, smp, prop, stop);
  same_tree(r, "after the search", t, s.m);
  if (s.added_told != s.m.states.size() - 1) r.fail("not every new state was announced");
  s.expect_end();
  check_paths(s, res.first);
  s.check_stats(res.second, s.goals.size(), s.m.states.size());
  r.state(mc::cat(mc::str(s.m.parent), mc::str(s.goals)));
}

MC_SCENARIO(resumed, "a search of up to 2 samples continued in the same tree by a second one (1-2 samples): earlier goals are found again, links stay exact", 4) {
  Search s{r};
  FNS(s);
  const State start = s.make("start is goal");
  s.m.add(start, -1);
  if (start.goal) s.goals.push_back(0);
  Tree t(1, Node(start));
  s.limit = r.choose(3, "samples");
  s.shapes = s.limit == 2 ? 3 : 5;
  RRT::PlanMultiPath(t, nn, goal_fn, goal_cb, smp, prop, stop);
  s.expect_end();
  Search s2{r};
  s2.m = s.m;
  s2.goals = s.goals;
  s2.next_id = s.next_id;
  s2.limit = r.bound(2, 2);
  s2.shapes = s2.limit == 2 ? 3 : 5;
  {
    Search& s = s2;
    FNS(s);
    auto res = RRT::PlanMultiPath(t, nn, added, goal_fn, goal_cb, smp, prop, stop);
    same_tree(r, "after both searches", t, s.m);
    s.expect_end();
    check_paths(s, res.first);
    s.check_stats(res.second, s.goals.size(), s.m.states.size());
  }
  r.state(mc::cat(mc::str(s2.m.parent), mc::str(s2.goals)));
}
MC_SCENARIO(single_path, "the same searches through the entry points that return one path (also goal-biased ones, with every draw): it is the first goal's, and nothing is sampled after it is found", 4) {
  Search s{r};
  const int form = r.choose(6, "form");
  s.limit = r.choose(r.bound(4, 5), "samples");
  s.shapes = s.limit >= 3 ? 3 : 5;
  FNS(s);
  const State start = s.make("start is goal");
  s.m.add(start, -1);
  if (start.goal) s.goals.push_back(0);
  const State goal{500, true};
  fn<bool()> stop1 = [&] {
    if (!s.goals.empty()) r.fail("asked whether to stop after a goal was found");
    return s.stop();
  };
  fn<State()> smp1 = [&] {
    if (!s.goals.empty()) r.fail("sampled after a goal was found");
    return s.sample();
  };
  // goal-biased and timed forms
  FakeClock clock;
  const int64_t begin = g_now;
  std::chrono::duration<double> limit(1.5 * s.limit);
  int from_goal = 0;
  auto tick = [&] {
    if (!s.goals.empty()) r.fail("sampled after a goal was found");
    if ((double)(g_now - begin) * 1e-9 > 1.5 * s.limit) r.fail("sampled after the time limit");
    if (++s.iterations > 4) throw mc::Prune();
    g_now += r.flip("slow") ? 5000000000 : 1500000000;
  };
  fn<State()> timed = [&] {
    tick();
    s.sample_id = 1000 + s.iterations;
    return State{s.sample_id, false};
  };
  fn<State()> goals = [&] {
    tick();
    from_goal++;
    s.sample_id = 500;
    return goal;
  };
  Draws rng{[&] { return r.flip("draw") ? 0.75 : 0.25; }};
  fn<int64_t(const Tree&, const State&)> nn_goal = [&](const Tree& t, const State& to) {
    if (to.id == 500) tick();
    if (to.id == 500) s.sample_id = 500;
    return s.nearest(t, to);
  };
  Tree t;
  if (form >= 3 && s.limit == 2) s.shapes = 3;
  auto res = form == 0 ? RRT::Plan(start, nn, goal_fn, smp1, prop, stop1)
           : form == 1 ? RRT::Plan(t, start, nn, goal_fn, smp1, prop, stop1)
           : form == 2 ? RRT::Plan(t, start, nn, goal_fn, smp1, prop, stop1)
           : form == 3 ? RRT::Plan(start, nn, goal_fn, timed, prop, limit)
           : form == 4 ? RRT::Plan(start, nn, goal_fn, timed, goals, prop, 0.5, limit, rng)
                       : RRT::Plan(start, goal, nn_goal, goal_fn, timed, prop, 0.5, limit, rng);
  if (form == 1 || form == 2) same_tree(r, "after the search", t, s.m);
  std::vector<int> want;
  if (!s.goals.empty()) want = s.m.chain(s.goals[0]);
  if (ids(res.first) != want) r.fail(mc::cat("path ", mc::str(ids(res.first)), ", the propagations give ", mc::str(want)));
  if (want.empty() && form < 3 && s.iterations != s.limit) r.fail("search ended early");
  if (want.empty() && form >= 3 && (double)(g_now - begin) * 1e-9 <= 1.5 * s.limit) r.fail("search ended before the time limit without a goal");
  s.check_stats(res.second, s.goals.size(), s.m.states.size());
  r.state(mc::cat(form, mc::str(s.m.parent), mc::str(s.goals)));
}
MC_SCENARIO(goal_bias, "biases 0.25, 0.5 and 0.75 over evenly spread draws from every starting cell: that share of the samples are goals", 2) {
  const double bias = 0.25 * (1 + r.choose(3, "bias"));
  const int first = r.choose(12, "first cell"), stride = r.flip("stride") ? 5 : 1;
  const bool fixed = r.flip("fixed goal");
  int n = first, samples = 0, goals = 0, cells = 0;
  Draws rng{[&] {
    const double u = (n + 0.5) / 12;
    n = (n + stride) % 12;
    cells++;
    return u;
  }};
  FakeClock clock;
  const State goal{500, true};
  fn<int64_t(const Tree&, const State&)> nn = [&](const Tree&, const State& s) {
    samples++;
    if (s.id == 500) goals++;
    g_now += 1000000000;
    return 0;
  };
  fn<bool(const State&)> goal_fn = [&](const State&) { return false; };
  fn<State()> smp = [&] { return State{1, false}; };
  fn<State()> smp_goal = [&] { return goal; };
  fn<Grown(const State&, const State&)> prop = [&](const State&, const State&) { return Grown(); };
  std::chrono::duration<double> limit(23.5);
  auto res = fixed ? RRT::Plan(State{0, false}, goal, nn, goal_fn, smp, prop, bias, limit, rng)
                   : RRT::Plan(State{0, false}, nn, goal_fn, smp, smp_goal, prop, bias, limit, rng);
  r.step();
  if (!res.first.empty() || samples != 24) r.fail(mc::cat(samples, " samples in 24 seconds"));
  if (cells == 24 && goals != (int)(bias * 24)) r.fail(mc::cat(goals, " of 24 evenly spread draws sampled the goal, bias ", bias));
  r.state(mc::cat(bias, first, stride));
}
MC_SCENARIO(bad_links, "every tree of 3-4 nodes with one link removed, redirected or out of range is refused, as are propagations whose parent comes later and empty trees", 2) {
  const int what = r.choose(3, "what");
  Search s{r};
  s.limit = 1;
  s.shapes = 2;
  s.choose_goals = false;
  FNS(s);
  fn<bool(const State&, const State&)> never = [](const State&, const State&) { return false; };
  fn<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> bridge = [](Tree&, const int64_t, Tree&, const int64_t, const bool) {};
  Draws rng{[&] { return 0.25; }};
  const int tree = r.choose(3, "planner");
  Tree good(1, Node(State{5, false}));
  auto run = [&](Tree& t) {
    if (tree == 0) RRT::PlanMultiPath(t, nn, added, goal_fn, goal_cb, smp, prop, stop);
    if (tree == 1) BiRRT::PlanMultiPath(t, good, nn, added, never, bridge, smp, prop, 0.5, 0.5, stop, rng);
    if (tree == 2) BiRRT::PlanMultiPath(good, t, nn, added, never, bridge, smp, prop, 0.5, 0.5, stop, rng);
  };
  if (what == 0) {
    Tree t;
    bool refused = false;
    try { run(t); } catch (const std::invalid_argument&) { refused = true; }
    if (!refused) r.fail("an empty tree was accepted");
  } else if (what == 1) {
    const int n = 3 + r.choose(2, "nodes");
    std::vector<int64_t> parent(1, -1);
    for (int i = 1; i < n; i++) parent.push_back(r.choose(i, "parent"));
    std::vector<std::vector<int64_t>> child((size_t)n);
    for (int i = 1; i < n; i++) child[(size_t)parent[(size_t)i]].push_back(i);
    const int which = r.choose(n, "node");
    const int change = r.choose(3, "change");
    if (change == 0) {  // another parent
      std::vector<int64_t> other;
      for (int64_t p : {-2L, -1L, 0L, 1L, 2L, 3L, 4L, 9L})
        if (p != parent[(size_t)which]) other.push_back(p);
      parent[(size_t)which] = other[(size_t)r.choose((int)other.size(), "new parent")];
    } else if (change == 1) {  // another child
      std::vector<int64_t> other;
      for (int64_t c : {-1L, 0L, 1L, 2L, 3L, 4L, 9L})
        if (std::find(child[(size_t)which].begin(), child[(size_t)which].end(), c) == child[(size_t)which].end()) other.push_back(c);
      child[(size_t)which].push_back(other[(size_t)r.choose((int)other.size(), "new child")]);
    } else {
      if (child[(size_t)which].empty()) throw mc::Prune();
      child[(size_t)which].erase(child[(size_t)which].begin() + r.choose((int)child[(size_t)which].size(), "lost child"));
    }
    Tree t;
    for (int i = 0; i < n; i++) t.push_back(Node(State{i, false}, parent[(size_t)i], child[(size_t)i]));
    bool refused = false;
    if (RRT::CheckTreeLinkage(t)) r.fail(mc::cat("a tree with parents ", mc::str(parent), " and mismatched links passed the check"));
    try { run(t); } catch (const std::invalid_argument&) { refused = true; }
    if (!refused || s.iterations) r.fail(mc::cat("a tree with parents ", mc::str(parent), " and mismatched links was accepted"));
    r.state(mc::cat(mc::str(parent), change, which));
  } else {
    const int n = 1 + r.choose(3, "states");
    Grown bad;
    for (int i = 0; i < n; i++) bad.push_back({State{10 + i, false}, i - 1});
    const int at = r.choose(n, "bad");
    bad[(size_t)at].second = at + r.choose(3, "later");
    prop = [&](const State&, const State&) { return bad; };
    fn<int64_t(const Tree&, const State&)> first = [](const Tree&, const State&) { return 0; };
    nn = first;
    added = [](Tree&, const int64_t) {};
    Tree t(1, Node(State{0, false}));
    bool refused = false;
    try { run(t); } catch (const std::invalid_argument&) { refused = true; }
    if (!refused) r.fail("a propagated state whose parent comes later was accepted");
    if (!RRT::CheckTreeLinkage(t) || !RRT::CheckTreeLinkage(good)) r.fail("a refused propagation left mismatched links");
  }
  r.step();
}
// --- two trees
struct Two {
  mc::Run& r;
  Model m[2];
  int next_id = 0, iterations = 0, limit = 0, shapes = 3, ok = 0, failed = 0, draws = 0, sample = -1, side = -1;
  bool stop_asked = false, single = false, never = false, none = false;
  int64_t near = -1;
  std::vector<std::pair<int, int>> joined, told;  // ids in start and goal tree
  size_t announced = 0;
  std::vector<size_t> sizes_now() const { return {m[0].states.size(), m[1].states.size()}; }
  int owner(const Tree& t) {
    if (!t.empty())
      for (int k = 0; k < 2; k++)
        if (t[0].GetValueImmutable().id == m[k].states[0].id) return k;
    r.fail("neighbour search in a tree that is neither of the two");
    return 0;
  }
  int64_t nearest(const Tree& t, const State& s) {
    side = owner(t);
    same_tree(r, "given to the neighbour search", t, m[side]);
    if (s.id != sample && m[1 - side].find(s.id) < 0) r.fail(mc::cat("state ", s.id, " was neither sampled nor is it in the other tree"));
    sample = s.id;
    near = r.choose((int)t.size() + (none ? 1 : 0), "nearest");
    if (near == (int64_t)t.size()) {
      near = -1;
      never = true;
    }
    draws = 2;
    return near;
  }
  Grown propagate(const State& from, const State& to) {
    if (from.id != m[side].states[(size_t)near].id || to.id != sample) r.fail("propagation from or to a state that was not asked for");
    auto& shape = SHAPES[(size_t)r.choose(shapes, "shape")];
    Grown g;
    const int64_t base = (int64_t)m[side].states.size();
    for (int64_t p : shape) {
      State s{next_id++, false};
      g.push_back({s, p});
      m[side].add(s, p < 0 ? near : base + p);
    }
    (shape.empty() ? failed : ok)++;
    r.step();
    return g;
  }
  bool connected(const State& a, const State& b) {
    int ia = a.id, ib = b.id;
    if (m[0].find(ia) < 0) std::swap(ia, ib);
    if (m[0].find(ia) < 0 || m[1].find(ib) < 0) r.fail("connection asked for states that are not in the two trees");
    for (auto& j : joined)
      if (j == std::make_pair(ia, ib)) r.fail(mc::cat("connection ", ia, "-", ib, " asked again after it was accepted"));
    const bool yes = r.flip("connected");
    if (yes) joined.push_back({ia, ib});
    return yes;
  }
  bool stop() {
    if (stop_asked || never) r.fail("asked again whether to stop");
    if (single && !joined.empty()) r.fail("asked whether to stop after the trees were joined");
    draws = 0;
    stop_asked = iterations++ >= limit;
    return stop_asked;
  }
  State random_state() {
    if (stop_asked || never || (single && !joined.empty())) r.fail("sampled after the search should have stopped");
    sample = 1000 + iterations;
    return State{sample, false};
  }
  double draw() {  // tree or space; which node; switch trees
    const int n = draws == 1 ? (int)std::max(m[0].states.size(), m[1].states.size()) : 2;
    draws++;
    return (r.choose(n, "draw") + 0.5) / n;
  }
};
static void check_two_paths(Two& s, const std::vector<Path>& paths, bool only_first) {
  std::vector<std::vector<int>> want;
  for (auto& j : s.joined) {
    auto a = s.m[0].chain(s.m[0].find(j.first)), b = s.m[1].chain(s.m[1].find(j.second));
    a.insert(a.end(), b.rbegin(), b.rend());
    want.push_back(a);
  }
  if (only_first && want.size() > 1) want.resize(1);
  if (all_ids(paths) != want) {
    std::string a, b;
    for (auto& p : paths) a += mc::str(ids(p));
    for (auto& p : want) b += mc::str(p);
    s.r.fail(mc::cat("paths returned ", a, ", expected ", b));
  }
}
MC_SCENARIO(big_trees, "two bidirectional growths of 1 to 33 states in five shapes, in the same tree or in both, aimed at a state of the other tree; the first, the last, every other or all connections accepted: links and joined paths exact", 3) {
  typedef simple_rrt_planner::SimpleRRTPlannerState<State> N;
  const int n1 = r.pick(std::vector<int>{1, 4, 9, 17, 33}, "first size"), n2 = r.pick(std::vector<int>{1, 5, 12, 20}, "second size");
  const std::vector<int64_t> shape[2] = {big_shape(r.choose(5, "first shape"), n1), big_shape(r.choose(5, "second shape"), n2)};
  const bool swap = r.flip("switch trees");
  const int accept = r.choose(4, "accepted");
  Model m[2];
  int next = 0, iteration = 0, asked = 0, target = -1, draws = 0;
  int64_t near = -1;
  std::vector<std::pair<int, int>> joined;
  m[0].add(State{next++, false}, -1);
  m[1].add(State{next++, false}, -1);
  std::vector<N> a(1, N(m[0].states[0])), b(1, N(m[1].states[0]));
  auto side = [&] { return iteration == 2 && swap ? 1 : 0; };
  const fn<int64_t(const std::vector<N>&, const State&)> nn = [&](const std::vector<N>& t, const State& s) {
    if (t[0].GetValueImmutable().id != side()) r.fail("growth in the wrong tree");
    same_tree(r, "given to the neighbour search", t, m[side()]);
    target = s.id;
    if (m[1 - side()].find(target) < 0) r.fail("the target is not a state of the other tree");
    draws = 2;
    return near = (int64_t)t.size() - 1;
  };
  const fn<void(std::vector<N>&, const int64_t)> added = [&](std::vector<N>&, const int64_t) {};
  const fn<bool(const State&, const State&)> connected = [&](const State& x, const State& y) {
    if (iteration == 0) return false;
    if (m[side()].find(x.id) < 0 || y.id != target) r.fail("connection asked for other states than the new one and the target");
    const int n = iteration == 1 ? n1 : n2, k = asked++;
    const bool yes = accept == 0 ? k == 0 : accept == 1 ? k == n - 1 : accept == 2 ? k % 2 == 0 : true;
    if (yes) joined.push_back(side() ? std::make_pair(y.id, x.id) : std::make_pair(x.id, y.id));
    return yes;
  };
  std::vector<std::pair<int, int>> told;
  const fn<void(std::vector<N>&, const int64_t, std::vector<N>&, const int64_t, const bool)> bridge = [&](std::vector<N>& s, const int64_t i, std::vector<N>& g, const int64_t j, const bool) {
    told.push_back({s.at((size_t)i).GetValueImmutable().id, g.at((size_t)j).GetValueImmutable().id});
  };
  const fn<State()> sampling = [&] { r.fail("a random state was sampled although the other tree is always to be sampled from"); return State{}; };
  const fn<Grown(const State&, const State&)> prop = [&](const State& f, const State& to) {
    Model& k = m[side()];
    if (f.id != k.states[(size_t)near].id || to.id != target) r.fail("propagation from or to a state that was not asked for");
    Grown g;
    const int64_t base = (int64_t)k.states.size();
    for (int64_t p : shape[iteration - 1]) {
      g.push_back({State{next++, false}, p});
      k.add(g.back().first, p < 0 ? near : base + p);
    }
    asked = 0;
    r.step();
    return g;
  };
  const fn<bool()> stop = [&] { draws = 0; return iteration++ >= 2; };
  Draws rng;
  rng.unit = [&] { return ++draws == 1 ? 0.25 : draws == 2 ? 0.999 : swap ? 0.25 : 0.75; };  // from the tree; its newest state; switch
  auto res = BiRRT::PlanMultiPath(a, b, nn, added, connected, bridge, sampling, prop, 0.5, 0.5, stop, rng);
  same_tree(r, "of the start after the search", a, m[0]);
  same_tree(r, "of the goal after the search", b, m[1]);
  if (told != joined) r.fail("the bridges reported are not the accepted connections");
  std::vector<std::vector<int>> want;
  for (auto& j : joined) {
    auto x = m[0].chain(m[0].find(j.first)), y = m[1].chain(m[1].find(j.second));
    x.insert(x.end(), y.rbegin(), y.rend());
    want.push_back(x);
  }
  if (all_ids(res.first) != want) r.fail(mc::cat("returned ", res.first.size(), " paths, expected ", want.size(), ", or their states differ"));
  r.state(mc::cat(mc::str(m[0].parent), mc::str(m[1].parent), accept));
}
MC_SCENARIO(two_trees, "every bidirectional search of up to 3 (thorough 4) samples: every draw (sample from the other tree or not, which node, switch trees), nearest neighbour, 3 propagation shapes and every set of accepted connections; four entry points", 5) {
  Two s{r};
  const int form = r.choose(4, "form");
  s.limit = r.choose(r.bound(4, 5), "samples");
  s.single = form == 3;
  s.none = form == 0 && s.limit < 3;
  s.shapes = s.limit >= 3 ? 2 : s.limit == 2 ? 3 : (int)SHAPES.size();
  fn<int64_t(const Tree&, const State&)> nn = [&](const Tree& t, const State& x) { return s.nearest(t, x); };
  fn<State()> smp = [&] { return s.random_state(); };
  fn<Grown(const State&, const State&)> prop = [&](const State& a, const State& b) { return s.propagate(a, b); };
  fn<bool(const State&, const State&)> conn = [&](const State& a, const State& b) { return s.connected(a, b); };
  fn<void(Tree&, const int64_t)> added = [&](Tree& t, const int64_t i) {
    s.announced++;
    const int k = s.owner(t);
    if (i != (int64_t)t.size() - 1 || t[(size_t)i].GetValueImmutable().id != s.m[k].states[(size_t)i].id) r.fail("a state other than the new one was announced");
  };
  fn<void(Tree&, const int64_t, Tree&, const int64_t, const bool)> bridge = [&](Tree& a, const int64_t i, Tree& b, const int64_t j, const bool from_start) {
    if (s.owner(a) != 0 || s.owner(b) != 1) r.fail("bridge reported with the trees swapped");
    s.told.push_back({a.at((size_t)i).GetValueImmutable().id, b.at((size_t)j).GetValueImmutable().id});
    if (s.side >= 0 && from_start != (s.side == 0)) r.fail("bridge reported for the wrong active tree");
  };
  fn<bool()> stop = [&] { return s.stop(); };
  Draws rng{[&] { return s.draw(); }};
  State start{s.next_id++, false}, goal{s.next_id++, false};
  s.m[0].add(start, -1);
  s.m[1].add(goal, -1);
  Tree a(1, Node(start)), b(1, Node(goal));
  std::map<std::string, double> st;
  std::vector<Path> paths;
  FakeClock clock;
  if (form == 3) {
    const int64_t begin = g_now;
    const double limit = 1.5 * s.limit;
    auto tick = [&] {
      if ((double)(g_now - begin) * 1e-9 > limit || !s.joined.empty()) r.fail("searched after the time limit or after the trees were joined");
      if (++s.iterations > 3) throw mc::Prune();
      g_now += 2000000000;
    };
    fn<int64_t(const Tree&, const State&)> nn_timed = [&](const Tree& t, const State& x) {
      tick();
      return s.nearest(t, x);
    };
    fn<Grown(const State&, const State&)> prop_timed = [&](const State& x, const State& y) {
      Grown g = s.propagate(x, y);
      return g;
    };
    Draws rng2{[&] {
      if (s.draws == 3) s.draws = 0;
      return s.draw();
    }};
    auto res = BiRRT::Plan(start, goal, nn_timed, conn, smp, prop_timed, 0.5, 0.5, std::chrono::duration<double>(limit), rng2);
    st = res.second;
    if (!res.first.empty()) paths.push_back(res.first);
    if (paths.empty() && (double)(g_now - begin) * 1e-9 <= limit) r.fail("ended before the time limit");
  } else {
    auto res = form == 0 ? BiRRT::PlanMultiPath(a, b, nn, added, conn, bridge, smp, prop, 0.5, 0.5, stop, rng)
             : form == 1 ? BiRRT::PlanMultiPath(start, goal, nn, added, conn, bridge, smp, prop, 0.5, 0.5, stop, rng)
                         : BiRRT::PlanMultiPath(start, goal, nn, conn, smp, prop, 0.5, 0.5, stop, rng);
    st = res.second;
    paths = res.first;
    if (form < 2 && (s.told != s.joined || s.announced != s.m[0].states.size() + s.m[1].states.size() - 2)) r.fail("not every new state or connection was reported");
    if (!s.never && s.iterations != s.limit + 1) r.fail("search ended early");
    if (form == 0) {
      same_tree(r, "of the start", a, s.m[0]);
      same_tree(r, "of the goal", b, s.m[1]);
    }
  }
  check_two_paths(s, paths, form == 3);
  if (st["total_samples"] != s.ok + s.failed || st["successful_samples"] != s.ok || st["failed_samples"] != s.failed || st["solutions"] != (double)s.joined.size() ||
      st["total_states"] != (double)(s.m[0].states.size() + s.m[1].states.size()))
    r.fail("wrong statistics");
  r.state(mc::cat(form, mc::str(s.m[0].parent), mc::str(s.m[1].parent), s.joined.size()));
}
MC_SCENARIO(draw_shares, "tree sampling and switching probabilities 0.25, 0.5, 0.75 over all combinations of evenly spread draws: exactly that share samples from the other tree, or switches", 2) {
  const double p = 0.25 * (1 + r.choose(3, "probability"));
  const bool trees = r.flip("switching");
  int total = 0, hits = 0;
  for (int code = 0; code < 4096; code++) {
    int c = code, n = 0, tree_samples = 0, asked = 0;
    Draws rng{[&] {
      const double u = ((c % 8) + 0.5) / 8;
      c /= 8;
      n++;
      return u;
    }};
    fn<int64_t(const Tree&, const State&)> nn = [&](const Tree&, const State& s) {
      if (s.id != 9) tree_samples++;
      return 0;
    };
    fn<State()> smp = [&] { return State{9, false}; };
    fn<Grown(const State&, const State&)> prop = [&](const State&, const State&) { return Grown(); };
    fn<bool(const State&, const State&)> conn = [&](const State&, const State&) { return false; };
    fn<bool()> stop = [&] { return asked++ == 1; };
    auto res = BiRRT::PlanMultiPath(State{0, false}, State{1, false}, nn, conn, smp, prop, trees ? 0.5 : p, trees ? p : 0.5, stop, rng);
    if (n > 4) throw mc::Prune();
    total++;
    hits += trees ? (int)res.second["active_tree_swaps"] : tree_samples;
    r.step();
  }
  if (hits != (int)(p * total)) r.fail(mc::cat(hits, " of ", total, " evenly spread draws ", trees ? "switched trees" : "sampled the other tree", ", probability ", p));
  r.state(mc::cat(p, trees));
}

MC_SCENARIO(tree_node, "all sequences of 5 (thorough 6) edits of a tree node and its copy: parent, children added (also again) and removed (also absent), cleared, value, round trips", 2) {
  typedef simple_rrt_planner::SimpleRRTPlannerState<int64_t> S;
  struct M {
    bool init = false;
    int64_t v = 0, p = -1;
    std::vector<int64_t> c;
  };
  S s[2];
  M m[2];
  auto ser = [](const int64_t& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int64_t>(v, b); };
  auto deser = [](const std::vector<uint8_t>& b, const uint64_t at) { return arc_utilities::DeserializeFixedSizePOD<int64_t>(b, at); };
  const int how = r.choose(4, "constructed");
  if (how == 1) s[0] = S(5);
  if (how == 2) s[0] = S(5, 3);
  if (how == 3) s[0] = S(5, 3, {4, 2});
  if (how) { m[0].init = true; m[0].v = 5; }
  if (how >= 2) m[0].p = 3;
  if (how == 3) m[0].c = {4, 2};
  if (!how) s[0].GetValueMutable() = s[1].GetValueMutable() = 0;
  s[1] = s[0];
  m[1] = m[0];
  const int depth = r.bound(5, 6);
  for (int k = 0; k < depth; k++) {
    const int op = r.choose(9, "operation");
    r.step();
    if (op < 3) {
      const int64_t c = op == 2 ? 4 : op;
      s[0].AddChildIndex(c);
      if (std::find(m[0].c.begin(), m[0].c.end(), c) == m[0].c.end()) m[0].c.push_back(c);
    } else if (op < 5) {
      const int64_t c = op == 4 ? 4 : 0;
      s[0].RemoveChildIndex(c);
      m[0].c.erase(std::remove(m[0].c.begin(), m[0].c.end(), c), m[0].c.end());
    } else if (op == 5) { s[0].ClearChildIndicies(); m[0].c.clear(); }
    else if (op == 6) { s[0].SetParentIndex(m[0].p + 2); m[0].p += 2; }
    else if (op == 7) { s[0].GetValueMutable() += 7; m[0].v += 7; }
    else {
      std::vector<uint8_t> b(3, 9);
      const uint64_t w = S::Serialize(s[0], b, ser);
      MC_CHECK(w + 3 == b.size(), "number of bytes written");
      for (uint64_t cut = 3; cut < b.size(); cut++)
        if (k + 1 == depth) MC_CHECK(trap::refused([&] { S::Deserialize(std::vector<uint8_t>(b.begin(), b.begin() + (long)cut), 3, deser); }), mc::cat("node cut to ", cut, " bytes accepted"));
      b.push_back(1);
      const auto q = S::Deserialize(b, 3, deser);
      MC_CHECK(q.second == w, "number of bytes read");
      std::swap(s[0], s[1]);
      std::swap(m[0], m[1]);
      s[0] = q.first;
      m[0] = m[1];
    }
    for (int i = 0; i < 2; i++) {
      const S& x = s[i];
      MC_CHECK(x.IsInitialized() == m[i].init && x.GetValueImmutable() == m[i].v && x.GetParentIndex() == m[i].p && x.GetChildIndices() == m[i].c,
               mc::cat("node ", i, ": value ", x.GetValueImmutable(), " parent ", x.GetParentIndex(), " children ", mc::str(x.GetChildIndices()), ", expected ", m[i].v, " ", m[i].p, " ", mc::str(m[i].c)));
    }
    r.state(mc::cat(m[0].v, m[0].p, mc::str(m[0].c), m[1].v, m[1].p, mc::str(m[1].c), m[0].init));
  }
}
