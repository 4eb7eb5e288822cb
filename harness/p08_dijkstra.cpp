// P08: Dijkstra distances and links against Bellman-Ford, and save/reload of the result.
#include "trap.hpp"

#include <Eigen/Core>
#include <arc_utilities/dijkstras.hpp>
using namespace arc_dijkstras;
typedef Graph<int> G;
typedef SimpleDijkstrasAlgorithm<int> D;
static uint64_t ser(const int& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int>(v, b); }
static std::pair<int, uint64_t> deser(const std::vector<uint8_t>& b, const uint64_t c) { return arc_utilities::DeserializeFixedSizePOD<int>(b, c); }
struct E {
  int f, t;
  double w;
};
static const double INF = std::numeric_limits<double>::infinity();

static std::string bytes_of(const G& g) {
  std::vector<uint8_t> b;
  g.serializeSelf(b, ser);
  return std::string(b.begin(), b.end());
}

static void check(mc::Run& r, int n, const std::vector<E>& es, bool reload) {
  G g;
  for (int i = 0; i < n; i++) g.addNode(40 + i);
  for (auto& e : es) g.addEdgeBetweenNodes(e.f, e.t, e.w);
  const std::string before = bytes_of(g);
  G last = g;
  for (int i = 0; i < n; i++) last.getNode(i).setDistance(0.0);
  for (int s = 0; s < n; s++) {
    r.step();
    // minimum weight of a directed path from each node to s
    std::vector<double> want((size_t)n, INF);
    want[(size_t)s] = 0;
    for (int k = 0; k < n; k++)
      for (auto& e : es) want[(size_t)e.f] = std::min(want[(size_t)e.f], e.w + want[(size_t)e.t]);
    const D::DijkstrasResult res = D::PerformDijkstrasAlgorithm(g, s);
    if (reload) {
      // the graph of an earlier result, whose nodes still hold the distances of that search, is as good an input
      const D::DijkstrasResult again = D::PerformDijkstrasAlgorithm(last, s);
      MC_CHECK(again.second == res.second, mc::cat("start ", s, ": searching the graph of an earlier result gives ", mc::str(again.second.second), ", the fresh graph ", mc::str(res.second.second)));
      MC_CHECK(bytes_of(again.first) == bytes_of(res.first), mc::cat("start ", s, ": the graph returned for the graph of an earlier result"));
      last = res.first;
    }
    const auto& prev = res.second.first;
    const auto& dist = res.second.second;
    MC_CHECK((int)prev.size() == n && (int)dist.size() == n, "sizes");
    for (int v = 0; v < n; v++) {
      const std::string at = mc::cat("node ", v, " start ", s);
      MC_CHECK(dist[(size_t)v] == want[(size_t)v], mc::cat(at, " distance ", dist[(size_t)v], " expected ", want[(size_t)v]));
      MC_CHECK(res.first.getNode(v).getDistance() == want[(size_t)v], mc::cat(at, " distance stored in the graph ", res.first.getNode(v).getDistance()));
      MC_CHECK(res.first.getNode(v).getValue() == 40 + v, "value in the returned graph");
      if (want[(size_t)v] == INF) {
        MC_CHECK(prev[(size_t)v] == -1, mc::cat(at, " unreachable but linked to ", prev[(size_t)v]));
        continue;
      }
      double total = 0;
      int64_t at_node = v;
      int hops = 0;
      while (at_node != s) {
        const int64_t p = prev[(size_t)at_node];
        MC_CHECK(p >= 0 && p < n, mc::cat(at, " broken link ", p));
        double best = INF;
        for (auto& e : es)
          if (e.f == at_node && e.t == p) best = std::min(best, e.w);
        MC_CHECK(best < INF, mc::cat(at, " follows a missing edge ", at_node, "->", p));
        total += best;
        at_node = p;
        MC_CHECK(++hops <= n, mc::cat(at, " links form a cycle"));
      }
      MC_CHECK(total == want[(size_t)v], mc::cat(at, " links sum to ", total));
    }
    MC_CHECK(prev[(size_t)s] == s, "link of the start node");
    MC_CHECK(bytes_of(g) == before, "the input graph changed");
    r.state(mc::cat(s, mc::str(dist), mc::str(prev)));
    if (reload) {
      std::vector<uint8_t> b(2, 9);
      const uint64_t wrote = D::SerializeDijstrasResult(res, b, ser);
      MC_CHECK(wrote == b.size() - 2, "bytes written");
      b.push_back(1);
      const auto back = D::DijstrasResult(b, 2, deser);
      MC_CHECK(back.second == wrote, "bytes read");
      MC_CHECK(back.first.second.first == prev && back.first.second.second == dist, "reloaded links and distances");
      MC_CHECK(bytes_of(back.first.first) == bytes_of(res.first), "reloaded graph");
    }
  }
  for (int s : {-1, n}) MC_CHECK(trap::refused([&] { D::PerformDijkstrasAlgorithm(g, s); }), mc::cat("start ", s, " accepted"));
}

MC_SCENARIO(all_small, "every directed graph on 1..3 nodes with each edge absent or of weight 0,1,2,5, both insertion orders", 2) {
  static const double W[] = {-1, 0, 1, 2, 5};
  const int n = 1 + r.choose(3, "nodes");
  std::vector<E> es;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i != j) {
        const int w = r.choose(5, "edge");
        if (w) es.push_back(E{i, j, W[w]});
      }
  if (r.flip("reverse order")) std::reverse(es.begin(), es.end());
  check(r, n, es, true);
}
MC_SCENARIO(four_nodes, "every directed graph on 4 nodes with each edge absent, 1 or 3 (thorough: also 0)", 4) {
  const int k = r.bound(3, 4);
  static const double W[] = {-1, 1, 3, 0};
  std::vector<E> es;
  for (int i = 0; i < 4; i++)
    for (int j = 0; j < 4; j++)
      if (i != j && (k == 4 || !(i == 3 && j == 0))) {
        // quick: edges out of the last node are present or absent only
        const int w = r.choose(i == 3 && k == 3 ? 2 : k == 4 && (i == 2 || i == 3) ? 3 : k, "edge");
        if (w) es.push_back(E{i, j, W[w]});
      }
  check(r, 4, es, false);
}
MC_SCENARIO(parallel_edges, "every sequence of 4 (thorough: 5) insertions on 3 nodes, parallel edges of different weight included", 3) {
  static const double W[] = {0, 1, 4};
  std::vector<E> es;
  const int len = r.bound(4, 5);
  for (int i = 0; i < len; i++) {
    const int c = r.choose(6, "edge"), f = c / 2, t = (f + 1 + c % 2) % 3;
    es.push_back(E{f, t, W[r.choose(3, "weight")]});
  }
  check(r, 3, es, false);
}
MC_SCENARIO(relaxation_chain, "six-node graphs where a node is improved repeatedly before it is settled: all weight assignments to a ladder", 3) {
  static const double W[] = {1, 2, 7, 0.25};
  std::vector<E> es;
  const int k = r.bound(3, 4);
  for (int i = 0; i < 5; i++) {
    es.push_back(E{i + 1, i, W[r.choose(k, "rung")]});
    if (i + 2 < 6) es.push_back(E{i + 2, i, W[r.choose(k, "skip")]});
  }
  es.push_back(E{0, 5, 1});
  check(r, 6, es, false);
}
MC_SCENARIO(scales, "every directed graph on 3 nodes with each edge absent or of weight 0,1,2,5, and a ladder of five nodes, scaled to tiny, huge and nearly equal weights", 3) {
  const mc::Scale sc = r.scale();
  std::vector<E> es;
  if (r.flip("ladder")) {
    for (int i = 0; i < 4; i++) {
      es.push_back(E{i + 1, i, sc(1 + r.choose(3, "rung"))});
      if (i + 2 < 5) es.push_back(E{i + 2, i, sc(1 + 2 * r.choose(3, "skip"))});
    }
    check(r, 5, es, false);
    return;
  }
  static const double W[] = {-1, 0, 1, 2, 5};
  for (int i = 0; i < 3; i++)
    for (int j = 0; j < 3; j++)
      if (i != j) {
        const int w = r.choose(r.bound(4, 5), "edge");
        if (w) es.push_back(E{i, j, sc(W[w])});
      }
  check(r, 3, es, false);
}
