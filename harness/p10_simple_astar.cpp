// P10: the generic best-first planner against exhaustive shortest paths.
#include "trap.hpp"

#include <arc_utilities/simple_astar_planner.hpp>
typedef simple_astar_planner::SimpleAStarPlanner<int> P;
static const double INF = std::numeric_limits<double>::infinity();
struct BadHash {  // every state collides
  size_t operator()(const int&) const { return 7; }
};

struct Space {
  int n;
  std::vector<std::vector<double>> w;  // INF: no transition
  std::set<int> goals;
};

static void check(mc::Run& r, const Space& s, int start, const std::vector<double>& h, bool consistent) {
  // cheapest continuation from each state to a goal
  std::vector<double> d((size_t)s.n, INF);
  for (int g : s.goals) d[(size_t)g] = 0;
  for (int k = 0; k < s.n; k++)
    for (int i = 0; i < s.n; i++)
      for (int j = 0; j < s.n; j++) d[(size_t)i] = std::min(d[(size_t)i], s.w[(size_t)i][(size_t)j] + d[(size_t)j]);
  std::set<int> expanded;
  bool twice = false;
  auto neighbours = [&](const int& a) {
    twice = twice || !expanded.insert(a).second;
    std::vector<int> out;
    for (int j = s.n - 1; j >= 0; j--)
      if (s.w[(size_t)a][(size_t)j] < INF) out.push_back(j);
    return out;
  };
  auto dist = [&](const int& a, const int& b) {
    const double c = s.w[(size_t)a][(size_t)b];
    if (c == INF) r.fail(mc::cat("cost asked for a transition that was not offered: ", a, "->", b));
    return c;
  };
  auto heur = [&](const int& a) { return h[(size_t)a]; };
  auto goal = [&](const int& a) { return s.goals.count(a) > 0; };
  r.step();
  for (int pass = 0; pass < 2; pass++) {
    expanded.clear();
    twice = false;
    const auto res = pass ? P::Plan<BadHash>(start, neighbours, dist, heur, goal) : P::Plan(start, neighbours, dist, heur, goal);
    const auto& path = res.first;
    const std::string at = mc::cat("start ", start, " heuristic ", mc::str(h), " path ", mc::str(path));
    MC_CHECK(!path.empty() == (d[(size_t)start] < INF), mc::cat(at, ": a goal is ", d[(size_t)start] < INF ? "" : "not ", "reachable"));
    MC_CHECK(!twice, mc::cat(at, ": a state was expanded twice"));
    MC_CHECK(res.second.count("planning time") && res.second.count("nodes explored") && res.second.at("nodes explored") == (double)expanded.size(), mc::cat(at, ": explored count"));
    r.state(mc::cat(at, d[(size_t)start]));
    if (path.empty()) continue;
    MC_CHECK(path.front() == start && s.goals.count(path.back()), mc::cat(at, ": ends"));
    double total = 0;
    std::set<int> seen(path.begin(), path.end());
    MC_CHECK(seen.size() == path.size(), mc::cat(at, ": repeats a state"));
    for (size_t i = 1; i < path.size(); i++) {
      MC_CHECK(s.w[(size_t)path[i - 1]][(size_t)path[i]] < INF, mc::cat(at, ": uses a transition that does not exist"));
      total += s.w[(size_t)path[i - 1]][(size_t)path[i]];
    }
    if (consistent) MC_CHECK(total == d[(size_t)start], mc::cat(at, ": costs ", total, ", optimum ", d[(size_t)start]));
  }
}
static bool consistent(const Space& s, const std::vector<double>& h) {
  for (int g : s.goals)
    if (h[(size_t)g] != 0) return false;
  for (int i = 0; i < s.n; i++)
    for (int j = 0; j < s.n; j++)
      if (s.w[(size_t)i][(size_t)j] < INF && h[(size_t)i] > s.w[(size_t)i][(size_t)j] + h[(size_t)j]) return false;
  return true;
}
static std::vector<double> heuristic(mc::Run& r, const Space& s, const std::vector<double>& vals) {
  std::vector<double> h;
  for (int i = 0; i < s.n; i++) h.push_back(s.goals.count(i) ? 0 : vals[(size_t)r.choose((int)vals.size(), "heuristic")]);
  return h;
}
MC_SCENARIO(three_states, "every transition system on 1..3 states (self loops included) with costs 0, 1, 3 or absent, all goal sets, all starts, all heuristics from {0,1,2,4}; cost is compared for consistent ones", 3) {
  static const double W[] = {INF, 1, 3, 0};
  Space s;
  s.n = 1 + r.choose(3, "states");
  s.w.assign((size_t)s.n, std::vector<double>((size_t)s.n, INF));
  for (int i = 0; i < s.n; i++)
    for (int j = 0; j < s.n; j++) {
      if (i == j) s.w[(size_t)i][(size_t)j] = i ? INF : 0;
      else s.w[(size_t)i][(size_t)j] = W[r.choose(s.n == 3 ? r.bound(3, 4) : 4, "transition")];
    }
  const int gm = r.choose(1 << s.n, "goals");
  for (int i = 0; i < s.n; i++)
    if (gm >> i & 1) s.goals.insert(i);
  const std::vector<double> h = heuristic(r, s, {0, 1, 2, 4});
  const bool c = consistent(s, h);
  for (int st = 0; st < s.n; st++) check(r, s, st, h, c);
}
MC_SCENARIO(five_states, "five-state systems where the cheap route is found after the expensive one: all costs and heuristics from small sets", 4) {
  Space s;
  s.n = 5;
  s.w.assign(5, std::vector<double>(5, INF));
  static const int T[][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 3}, {3, 4}, {2, 4}, {3, 1}};
  static const double W[] = {1, 2, 5};
  for (int i = 0; i < r.bound(7, 8); i++) s.w[(size_t)T[i][0]][(size_t)T[i][1]] = i < 3 ? W[r.choose(3, "cost")] : i < 6 ? W[2 * r.choose(2, "cost")] : W[r.choose(2, "cost")] * 3;
  s.goals = {4};
  const std::vector<double> h = heuristic(r, s, {0, 1, 3});
  check(r, s, 0, h, consistent(s, h));
}
MC_SCENARIO(grids, "4x4 grids with every set of blocked cells (quick: 3x4), Manhattan, zero and exact heuristics, several goals", 3) {
  const int rows = r.bound(3, 4), cols = 4;
  std::vector<bool> blocked;
  for (int i = 0; i < rows * cols; i++) blocked.push_back(r.flip("blocked"));
  if (blocked[0]) return;
  Space s;
  s.n = rows * cols;
  s.w.assign((size_t)s.n, std::vector<double>((size_t)s.n, INF));
  for (int i = 0; i < s.n; i++)
    for (int j = 0; j < s.n; j++)
      if (!blocked[(size_t)i] && !blocked[(size_t)j] && std::abs(i / cols - j / cols) + std::abs(i % cols - j % cols) == 1) s.w[(size_t)i][(size_t)j] = 1;
  s.goals = {s.n - 1, cols - 1};
  std::vector<double> h((size_t)s.n, 0);
  if (r.flip("Manhattan heuristic"))
    for (int i = 0; i < s.n; i++) h[(size_t)i] = std::min(std::abs(i / cols - rows + 1) + std::abs(i % cols - cols + 1), i / cols + std::abs(i % cols - cols + 1));
  check(r, s, 0, h, consistent(s, h));
}
MC_SCENARIO(scales, "three-state systems with costs 0, 1, 3 or absent and five-state detours, scaled to tiny, huge and nearly equal costs, with heuristics", 3) {
  const mc::Scale sc = r.scale();
  Space s;
  const bool five = r.flip("detour");
  s.n = five ? 5 : 3;
  s.w.assign((size_t)s.n, std::vector<double>((size_t)s.n, INF));
  if (five) {
    static const int T[][2] = {{0, 1}, {0, 2}, {1, 2}, {1, 3}, {2, 3}, {3, 4}, {2, 4}};
    for (auto& t : T) s.w[(size_t)t[0]][(size_t)t[1]] = sc(1 + 2 * r.choose(3, "cost"));
  } else {
    for (int i = 0; i < 3; i++)
      for (int j = 0; j < 3; j++) {
        const int c = i == j ? 0 : r.choose(4, "transition");
        if (c) s.w[(size_t)i][(size_t)j] = sc(c == 1 ? 0 : c == 2 ? 1 : 3);
      }
  }
  s.goals = {s.n - 1};
  const std::vector<double> h = heuristic(r, s, five ? std::vector<double>{0, sc(1)} : std::vector<double>{0, sc(1), sc(3)});
  const bool c = consistent(s, h);
  for (int st = 0; st < (five ? 1 : s.n); st++) check(r, s, st, h, c);
}
