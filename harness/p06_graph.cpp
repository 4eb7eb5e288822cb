// P06: graph construction, linkage check and serialization against an edge-list model.
#include "trap.hpp"

#include <Eigen/Core>
#include <arc_utilities/graph.hpp>
using namespace arc_dijkstras;
typedef Graph<int> G;
typedef GraphNode<int> N;

static uint64_t ser(const int& v, std::vector<uint8_t>& b) { return arc_utilities::SerializeFixedSizePOD<int>(v, b); }
static std::pair<int, uint64_t> deser(const std::vector<uint8_t>& b, const uint64_t c) { return arc_utilities::DeserializeFixedSizePOD<int>(b, c); }

struct E {
  int64_t f, t;
  double w;
  EDGE_VALIDITY v;
};
struct MNode {
  int value;
  double dist;
  std::vector<E> in, out;
};
struct Model {
  std::vector<MNode> n;
  std::string key() const {
    std::string s;
    for (auto& x : n) {
      s += mc::cat("|", x.value, "@", x.dist);
      for (auto& e : x.out) s += mc::cat(">", e.t, ":", e.w, ":", (int)e.v);
      for (auto& e : x.in) s += mc::cat("<", e.f, ":", e.w, ":", (int)e.v);
    }
    return s;
  }
};

static bool same(const GraphEdge& a, const E& e) { return a.getFromIndex() == e.f && a.getToIndex() == e.t && a.getWeight() == e.w && a.getValidity() == e.v; }

// Independent definition of a correctly linked node set.
static bool linked(const std::vector<N>& ns) {
  const int64_t n = (int64_t)ns.size();
  for (int64_t i = 0; i < n; i++) {
    for (auto& e : ns[(size_t)i].getOutEdges()) {
      const int64_t f = e.getFromIndex(), t = e.getToIndex();
      if (f != i || t < 0 || t >= n || t == i) return false;
      int c = 0;
      for (auto& x : ns[(size_t)t].getInEdges()) c += x.getFromIndex() == i;
      if (!c) return false;
    }
    for (auto& e : ns[(size_t)i].getInEdges()) {
      const int64_t f = e.getFromIndex(), t = e.getToIndex();
      if (t != i || f < 0 || f >= n || f == i) return false;
      int c = 0;
      for (auto& x : ns[(size_t)f].getOutEdges()) c += x.getToIndex() == i;
      if (!c) return false;
    }
  }
  return true;
}

// The edges a printed text names, as "(from->to) : weight".
static std::vector<E> printed(const std::string& s) {
  std::vector<E> out;
  for (size_t p = s.find('('); p != std::string::npos; p = s.find('(', p + 1)) {
    long f, t;
    double w;
    if (std::sscanf(s.c_str() + p, "(%ld->%ld) : %lf", &f, &t, &w) == 3) out.push_back(E{f, t, w, UNKNOWN});
  }
  return out;
}
static void compare_print(mc::Run& r, const G& g, const Model& m) {
  std::vector<E> all;
  auto match = [&](const std::vector<E>& got, const std::vector<E>& want, const char* what) {
    MC_CHECK(got.size() == want.size(), mc::cat(what, " names ", got.size(), " edges, there are ", want.size()));
    for (size_t i = 0; i < got.size(); i++) MC_CHECK(got[i].f == want[i].f && got[i].t == want[i].t && std::fabs(got[i].w - want[i].w) <= 1e-6, mc::cat(what, ": edge ", i));
  };
  for (size_t i = 0; i < m.n.size(); i++) {
    std::vector<E> mine = m.n[i].in;
    mine.insert(mine.end(), m.n[i].out.begin(), m.n[i].out.end());
    std::ostringstream s;
    s << g.getNode((int64_t)i).print();
    match(printed(s.str()), mine, "printed node");
    all.insert(all.end(), mine.begin(), mine.end());
  }
  std::ostringstream s;
  s << g.print();
  match(printed(s.str()), all, "printed graph");
}

static void compare(mc::Run& r, const G& g, const Model& m, const std::string& when, bool absent = true) {
  r.step();
  MC_CHECK(g.getNodes().size() == m.n.size(), mc::cat(when, ": ", g.getNodes().size(), " nodes"));
  for (int64_t i = -2; i < (int64_t)m.n.size() + 2; i++) {
    const bool in = i >= 0 && i < (int64_t)m.n.size();
    MC_CHECK(g.indexInRange(i) == in, mc::cat(when, ": index ", i, " in range"));
    if (!in && absent) MC_CHECK(trap::refused([&] { g.getNode(i); }), mc::cat(when, ": node ", i, " served"));
  }
  for (size_t i = 0; i < m.n.size(); i++) {
    const N& n = g.getNode((int64_t)i);
    const MNode& x = m.n[i];
    MC_CHECK(n.getValue() == x.value, mc::cat(when, ": value of node ", i, " is ", n.getValue()));
    MC_CHECK(n.getDistance() == x.dist, mc::cat(when, ": distance of node ", i));
    MC_CHECK(n.getOutEdges().size() == x.out.size() && n.getInEdges().size() == x.in.size(), mc::cat(when, ": edge counts of node ", i, " out ", n.getOutEdges().size(), " in ", n.getInEdges().size()));
    for (size_t k = 0; k < x.out.size(); k++) MC_CHECK(same(n.getOutEdges()[k], x.out[k]), mc::cat(when, ": out edge ", k, " of node ", i, " is ", n.getOutEdges()[k].print()));
    for (size_t k = 0; k < x.in.size(); k++) MC_CHECK(same(n.getInEdges()[k], x.in[k]), mc::cat(when, ": in edge ", k, " of node ", i, " is ", n.getInEdges()[k].print()));
    for (size_t j = 0; j < m.n.size(); j++) {
      const E* first = nullptr;
      for (auto& e : x.out)
        if (e.t == (int64_t)j && !first) first = &e;
      if (first) {
        MC_CHECK(same(g.getEdge((int64_t)i, (int64_t)j), *first), mc::cat(when, ": edge lookup ", i, "->", j));
      } else if (absent) {
        MC_CHECK(trap::refused([&] { g.getEdge((int64_t)i, (int64_t)j); }), mc::cat(when, ": absent edge ", i, "->", j, " served"));
      }
    }
  }
  MC_CHECK(g.checkGraphLinkage() && G::CheckGraphLinkage(g) && G::CheckGraphLinkage(g.getNodes()), mc::cat(when, ": linkage check rejects a built graph"));
  if (!absent) return;
  compare_print(r, g, m);
  const auto& cn = g.getNodes();
  G again(cn);
  MC_CHECK(again.getNodes().size() == m.n.size(), "construction from nodes");
}

static G reload(mc::Run& r, const G& g, int variant) {
  std::vector<uint8_t> b(variant ? 3 : 0, 0xEE);
  const uint64_t off = b.size();
  const uint64_t wrote = variant ? G::Serialize(g, b, ser) : g.serializeSelf(b, ser);
  MC_CHECK(wrote == b.size() - off, "bytes written");
  if (variant) b.push_back(0xAA);
  if (variant) {
    auto p = G::Deserialize(b, off, deser);
    MC_CHECK(p.second == wrote, "bytes read");
    std::vector<uint8_t> b2;
    p.first.serializeSelf(b2, ser);
    MC_CHECK(std::equal(b2.begin(), b2.end(), b.begin() + (long)off) && b2.size() == wrote, "re-serialized bytes differ");
    return p.first;
  }
  G h;
  MC_CHECK(h.deserializeSelf(b, 0, deser) == wrote, "bytes read");
  return h;
}

static void connect(Model& m, int64_t a, int64_t b, double w) {
  E e{a, b, w, UNKNOWN};
  m.n[(size_t)a].out.push_back(e);
  m.n[(size_t)b].in.push_back(e);
}

MC_SCENARIO(histories, "all sequences of node, edge, edge-pair and rejected insertions, edge updates and round trips on up to 4 nodes; the whole graph is compared after every operation", 3) {
  G g;
  Model m;
  const int start = r.choose(3, "initial nodes") + 1;
  const int depth = r.bound(start == 3 ? 3 : 4, start == 3 ? 4 : 5);
  for (int i = 0; i < start; i++) {
    MC_CHECK(g.addNode(100 + i) == i, "node index");
    m.n.push_back(MNode{100 + i, std::numeric_limits<double>::infinity(), {}, {}});
  }
  for (int d = 0; d < depth; d++) {
    if (r.seen(mc::hash_str(mc::cat("p", m.key())), depth - d)) return;
    const double w = 0.5 + d;
    const int64_t n = (int64_t)m.n.size();
    switch (r.choose(6, "op")) {
      case 0: {
        if (n >= 4) return;
        const int v = 10 * d;
        int64_t id;
        if (r.flip("as node object")) {
          N node(v);
          node.setDistance(2.5);
          id = g.addNode(node);
          m.n.push_back(MNode{v, 2.5, {}, {}});
        } else {
          id = g.addNode(v);
          m.n.push_back(MNode{v, std::numeric_limits<double>::infinity(), {}, {}});
        }
        MC_CHECK(id == n, mc::cat("new node got index ", id));
        break;
      }
      case 1:
      case 2: {
        // a = -1 and a = n are out of range
        const int64_t a = r.choose((int)n + 2, "from") - 1, b = r.choose((int)n + 2, "to") - 1;
        const bool pair = r.flip("both directions");
        const bool legal = a >= 0 && b >= 0 && a < n && b < n && a != b;
        const bool must = !legal;
        const bool refused = must && (n > 2 && d < depth - 1) ? true : trap::refused([&] {
          if (pair) {
            auto p = g.addEdgesBetweenNodes(a, b, w);
            if (p.first.getFromIndex() != a || p.first.getToIndex() != b || p.second.getFromIndex() != b || p.second.getToIndex() != a) r.fail("returned edge pair has wrong ends");
            if (p.first.getWeight() != w || p.second.getWeight() != w) r.fail("returned edge pair has wrong weights");
          } else {
            GraphEdge& e = g.addEdgeBetweenNodes(a, b, w);
            if (e.getFromIndex() != a || e.getToIndex() != b) r.fail("returned edge has wrong ends");
            if (e.getWeight() != w) r.fail("returned edge has the wrong weight");
            if (&e != &g.getNode(a).getOutEdges().back()) r.fail("the edge returned is not the one in the graph");
          }
        });
        MC_CHECK(refused == !legal, mc::cat("insertion ", a, "->", b, refused ? " refused" : " accepted"));
        if (legal) {
          connect(m, a, b, w);
          if (pair) connect(m, b, a, w);
        }
        break;
      }
      case 3: {  // change weight and validity of an existing edge through the accessor
        std::vector<std::pair<int64_t, int64_t>> es;
        for (int64_t i = 0; i < n; i++)
          for (auto& e : m.n[(size_t)i].out) es.push_back({i, e.t});
        if (es.empty()) return;
        auto p = es[(size_t)r.choose((int)es.size(), "edge")];
        GraphEdge& e = g.getEdge(p.first, p.second);
        e.setWeight(w + 100);
        e.setValidity(INVALID);
        for (auto& x : m.n[(size_t)p.first].out)
          if (x.t == p.second) {
            x.w = w + 100;
            x.v = INVALID;
            break;
          }
        bool back = false;
        for (auto& x : m.n[(size_t)p.second].out) back = back || x.t == p.first;
        if (back) {
          GraphEdge& rv = g.getReverseEdge(e);
          MC_CHECK(rv.getFromIndex() == p.second && rv.getToIndex() == p.first, "reverse edge ends");
        } else {
          MC_CHECK(trap::refused([&] { g.getReverseEdge(e); }), "absent reverse edge served");
        }
        break;
      }
      case 4:
        g = reload(r, g, r.choose(2, "round trip"));
        break;
      default: {
        const int i = r.choose((int)n, "node");
        g.getNode(i).getValue() = 7000 + d;
        m.n[(size_t)i].value = 7000 + d;
        if (r.flip("copy and shrink")) {
          G h = g;
          h.addNode(1);
          h.shrinkToFit();
          h.addEdgeBetweenNodes(i, n, 3);
        }
      }
    }
    r.state(m.key());
    compare(r, g, m, mc::cat("after operation ", d), m.n.size() < 3);
  }
  for (int v = 0; v < 2; v++) compare(r, reload(r, g, v), m, "after a round trip", false);
}

static void build(G& g, int n, int mask) {
  for (int i = 0; i < n; i++) g.addNode(i);
  int b = 0;
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++)
      if (i != j && (mask >> b++ & 1)) g.addEdgeBetweenNodes(i, j, 1 + b);
}

static void check_linkage(mc::Run& r, const std::vector<N>& ns, const std::string& what) {
  const bool want = linked(ns);
  r.step();
  MC_CHECK(G::CheckGraphLinkage(ns) == want, mc::cat(what, ": linkage check says ", !want));
  const bool refused = trap::refused([&] { G g(ns); });
  MC_CHECK(refused == !want, mc::cat(what, ": construction ", refused ? "refused" : "accepted"));
}

MC_SCENARIO(linkage_pairs, "every pair of nodes with at most one in- and one out-edge each, all end indices from -1 to 2, against the linkage definition", 2) {
  std::vector<N> ns(2);
  for (int i = 0; i < 2; i++)
    for (int k = 0; k < 2; k++) {
      const int c = r.choose(17, k ? "in edge" : "out edge");
      if (!c) continue;
      GraphEdge e((c - 1) / 4 - 1, (c - 1) % 4 - 1, 1.0);
      if (k) ns[(size_t)i].addInEdge(e);
      else ns[(size_t)i].addOutEdge(e);
    }
  check_linkage(r, ns, "pair");
  r.state(mc::cat(linked(ns), ns[0].print(), ns[1].print()));
}

MC_SCENARIO(linkage_corruptions, "every directed graph on 2..3 (thorough: 4) nodes with one field of one edge record changed, one record dropped or one record duplicated elsewhere", 2) {
  const int n = 2 + r.choose(r.bound(2, 3), "nodes");
  const int mask = r.choose(1 << (n * (n - 1)), "edges");
  G g;
  build(g, n, mask);
  std::vector<N> ns = g.getNodes();
  const int node = r.choose(n, "node"), side = r.choose(2, "side");
  std::vector<GraphEdge>& es = side ? ns[(size_t)node].getInEdges() : ns[(size_t)node].getOutEdges();
  if (es.empty()) {
    check_linkage(r, ns, "intact");
    return;
  }
  const int k = r.choose((int)es.size(), "record");
  const int how = r.choose(4, "change");
  if (how == 0) es[(size_t)k].setFromIndex(r.choose(n + 2, "from") - 1);
  if (how == 1) es[(size_t)k].setToIndex(r.choose(n + 2, "to") - 1);
  if (how == 2) es.erase(es.begin() + k);
  if (how == 3) {
    const int o = r.choose(n, "other node");
    if (r.flip("other side")) ns[(size_t)o].addInEdge(es[(size_t)k]);
    else ns[(size_t)o].addOutEdge(es[(size_t)k]);
  }
  r.state(mc::cat(n, mask, node, side, k, how, linked(ns)));
  check_linkage(r, ns, mc::cat("graph with ", n, " nodes mask ", mask, " change ", how));
}

MC_SCENARIO(linkage_hubs, "a node with 3..6 neighbours (edges to it, from it or both, some doubled), one or two records anywhere dropped or redirected", 2) {
  const int n = 4 + r.choose(4, "nodes"), dir = r.choose(3, "direction"), twice = r.choose(3, "doubled");
  G g;
  for (int i = 0; i < n; i++) g.addNode(i);
  const int64_t hub = r.choose(2, "hub") ? n - 1 : 1;
  for (int64_t i = 0; i < n; i++) {
    if (i == hub) continue;
    for (int k = 0; k < (twice == 1 && i % 2 ? 2 : twice == 2 && i == n - 2 ? 3 : 1); k++) {
      if (dir != 1) g.addEdgeBetweenNodes(i, hub, 1 + (double)i);
      if (dir != 0) g.addEdgeBetweenNodes(hub, i, 1 + (double)i);
    }
  }
  std::vector<N> ns = g.getNodes();
  check_linkage(r, ns, "hub");
  for (int i = 0; i < 2; i++) {
    const int node = r.flip("at the hub") ? (int)hub : r.choose(n, "node");
    std::vector<GraphEdge>& es = r.flip("in edges") ? ns[(size_t)node].getInEdges() : ns[(size_t)node].getOutEdges();
    if (es.empty()) continue;
    const int k = r.choose((int)es.size(), "record");
    const int how = r.choose(3, "change");
    if (how == 0) es.erase(es.begin() + k);
    if (how == 1) es[(size_t)k].setFromIndex((es[(size_t)k].getFromIndex() + 1) % n);
    if (how == 2) es[(size_t)k].setToIndex((es[(size_t)k].getToIndex() + 1) % n);
    check_linkage(r, ns, mc::cat("hub with ", n - 1, " neighbours, direction ", dir, ", change ", how, " of record ", k, " at node ", node));
  }
  r.state(mc::cat(n, dir, twice, hub, linked(ns), ns[(size_t)hub].print()));
}

MC_SCENARIO(node_alone, "all sequences of 4 (thorough 5) edits of one node and its copy: edges added singly or as pairs, lists replaced (also by the node's own), edges changed through their lookup, value, distance, round trips", 2) {
  N n[2] = {N(1), N(1)};
  MNode m[2] = {{1, std::numeric_limits<double>::infinity(), {}, {}}, {1, std::numeric_limits<double>::infinity(), {}, {}}};
  static const E PAL[3] = {{0, 1, 0.5, VALID}, {0, 2, 1.5, INVALID}, {1, 0, 2.5, UNKNOWN}};
  auto mk = [](const E& e) {
    GraphEdge g(e.f, e.t, e.w);
    g.setValidity(e.v);
    return g;
  };
  const int depth = r.bound(4, 5);
  for (int k = 0; k < depth; k++) {
    const int op = r.choose(11, "operation");
    N& x = n[0];
    MNode& y = m[0];
    r.step();
    if (op < 3) {
      const E& e = PAL[op];
      if (op == 0) { x.addOutEdge(mk(e)); y.out.push_back(e); }
      if (op == 1) { x.addInEdge(mk(e)); y.in.push_back(e); }
      if (op == 2) { x.addEdgePair(mk(e), mk(PAL[0])); y.in.push_back(e); y.out.push_back(PAL[0]); }
    } else if (op == 3) { x.setOutEdges({mk(PAL[1]), mk(PAL[0]), mk(PAL[1])}); y.out = {PAL[1], PAL[0], PAL[1]}; }
    else if (op == 4) { x.setInEdges(x.getOutEdges()); y.in = y.out; }
    else if (op == 5) { x.setOutEdges(x.getOutEdges()); x.setInEdges({}); y.in.clear(); }
    else if (op == 6) {
      E* first = nullptr;
      for (auto& e : y.out)
        if (e.t == 1 && !first) first = &e;
      const bool refused = trap::refused([&] { x.getEdgeTo(1); });
      MC_CHECK(refused == !first, "lookup of the edge to node 1");
      if (first) {
        GraphEdge& g = x.getEdgeTo(1);
        g.setWeight(first->w = 9);
        g.setValidity(first->v = INVALID);
      }
    } else if (op == 7) { x.getValue() += 10; y.value += 10; }
    else if (op == 8) { x.setDistance(3.25); y.dist = 3.25; }
    else if (op == 9) { n[1] = n[0]; m[1] = m[0]; }
    else {
      std::vector<uint8_t> b(3, 9);
      const uint64_t w = N::Serialize(x, b, ser);
      b.push_back(1);
      const auto q = N::Deserialize(b, 3, deser);
      MC_CHECK(w + 4 == b.size() && q.second == w, "size of a stored node");
      std::swap(n[0], n[1]);
      std::swap(m[0], m[1]);
      n[0] = q.first;
      m[0] = m[1];
    }
  }
  for (int k = 0; k < 2; k++) {
    const N& c = n[k];
    MC_CHECK(c.getValue() == m[k].value && c.getDistance() == m[k].dist && c.getInEdges().size() == m[k].in.size() && c.getOutEdges().size() == m[k].out.size(), mc::cat("node ", k, " is ", c.print()));
    for (size_t i = 0; i < m[k].in.size(); i++) MC_CHECK(same(c.getInEdges()[i], m[k].in[i]), mc::cat("in edge ", i, " of ", c.print()));
    for (size_t i = 0; i < m[k].out.size(); i++) {
      const GraphEdge& g = c.getOutEdges()[i];
      const E& e = m[k].out[i];
      MC_CHECK(same(g, e) && g.isValid() == (e.v == VALID) && g.isInvalid() == (e.v == INVALID), mc::cat("out edge ", i, " of ", c.print()));
      for (auto& o : PAL) MC_CHECK((g == mk(o)) == (e.f == o.f && e.t == o.t && e.w == o.w && e.v == o.v), "comparison of two edges");
    }
    for (int64_t t = -1; t < 4; t++) {
      const E* first = nullptr;
      for (auto& e : m[k].out)
        if (e.t == t && !first) first = &e;
      if (first) MC_CHECK(same(c.getEdgeTo(t), *first), mc::cat("edge to ", t, " of ", c.print()));
      else MC_CHECK(trap::refused([&] { c.getEdgeTo(t); }), mc::cat("absent edge to ", t));
    }
    r.state(Model{{m[k]}}.key());
  }
}
