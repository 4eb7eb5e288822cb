// P07: connected components against transitive closure.
#include "trap.hpp"

#include <Eigen/Core>
#include <arc_utilities/graph.hpp>
using namespace arc_dijkstras;
typedef Graph<int> G;

static void check(mc::Run& r, int n, const std::vector<std::pair<int, int>>& edges, bool one_way_calls) {
  G g;
  for (int i = 0; i < n; i++) g.addNode(i);
  std::vector<std::vector<bool>> reach((size_t)n, std::vector<bool>((size_t)n, false));
  for (int i = 0; i < n; i++) reach[(size_t)i][(size_t)i] = true;
  for (auto& e : edges) {
    if (one_way_calls) {
      g.addEdgeBetweenNodes(e.first, e.second, 1);
      g.addEdgeBetweenNodes(e.second, e.first, 2);
    } else {
      g.addEdgesBetweenNodes(e.first, e.second, 0);
    }
    reach[(size_t)e.first][(size_t)e.second] = reach[(size_t)e.second][(size_t)e.first] = true;
  }
  for (int k = 0; k < n; k++)
    for (int i = 0; i < n; i++)
      for (int j = 0; j < n; j++)
        if (reach[(size_t)i][(size_t)k] && reach[(size_t)k][(size_t)j]) reach[(size_t)i][(size_t)j] = true;
  r.step();
  const auto got = g.getConnectedComponentsUndirected();
  MC_CHECK((int)got.first.size() == n, "one number per node");
  std::set<uint32_t> used(got.first.begin(), got.first.end());
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      MC_CHECK((got.first[(size_t)i] == got.first[(size_t)j]) == (bool)reach[(size_t)i][(size_t)j], mc::cat("nodes ", i, " and ", j, " numbers ", mc::str(got.first), " count ", got.second));
  MC_CHECK(used.size() == got.second, mc::cat("count ", got.second, " numbers ", mc::str(got.first)));
  for (uint32_t u : used) MC_CHECK(u >= 1 && u <= got.second, mc::cat("number ", u, " of ", got.second));
  r.state(mc::cat(n, mc::str(got.first)));
}

MC_SCENARIO(all_graphs, "every undirected graph on 0..6 (thorough: 7) nodes", 2) {
  const int n = r.choose(r.bound(7, 8), "nodes");
  std::vector<std::pair<int, int>> e;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++)
      if (r.flip("edge")) e.push_back(i % 2 ? std::make_pair(i, j) : std::make_pair(j, i));
  check(r, n, e, false);
}
MC_SCENARIO(orders, "every sequence of up to 5 (thorough: 6) edge insertions, repeats included, on 4 and 5 nodes", 2) {
  const int n = 4 + r.choose(2, "nodes");
  std::vector<std::pair<int, int>> all, e;
  for (int i = 0; i < n; i++)
    for (int j = i + 1; j < n; j++) all.push_back({i, j});
  const int k = r.choose(r.bound(6, 7), "insertions");
  for (int i = 0; i < k; i++) e.push_back(all[(size_t)r.choose(n == 5 && k > 4 ? 7 : (int)all.size(), "edge")]);
  check(r, n, e, true);
}
MC_SCENARIO(big, "paths, stars and combs of up to 300 nodes with every single edge removed", 2) {
  const int shape = r.choose(3, "shape"), n = r.choose(2, "size") ? r.bound(120, 300) : 17;
  const int drop = r.choose(n - 1, "dropped edge");
  std::vector<std::pair<int, int>> e;
  for (int i = 1; i < n; i++) {
    if (i - 1 == drop) continue;
    e.push_back({shape == 0 ? i - 1 : shape == 1 ? n - 1 : (i % 2 ? std::max(i - 2, 0) : i - 1), shape == 1 ? i - 1 : i});
  }
  check(r, n, e, false);
}
