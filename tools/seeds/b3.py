SEEDS = {
"complete-link-early-break": dict(prop="P16", edits=[("include/arc_utilities/simple_hierarchical_clustering.hpp", "            for (size_t cpdx = 0; cpdx < clusters[cdx].size(); cpdx++) {\n", "            for (size_t cpdx = 0; cpdx < clusters[cdx].size() && complete_link_distance <= min_point_cluster_distance; cpdx++) {\n")],
 needs="single linkage with two clusters and a point whose distance to the first member of the nearer one exceeds its distance to the other cluster", breaks="the point joins a cluster that is not the closest",
 build="-include cmath -include functional -include iostream",
 demo="""#include <Eigen/Dense>
#include <cstdint>
#include <map>
#include <vector>
#include <arc_utilities/simple_hierarchical_clustering.hpp>
using namespace simple_hierarchical_clustering;
typedef SimpleHierarchicalClustering S;
static std::vector<std::vector<int64_t>> reference(const Eigen::MatrixXd& d, double max) {
  // single linkage: components of the graph of distances <= max
  const long n = d.rows();
  std::vector<int64_t> c(n);
  for (long i = 0; i < n; i++) c[i] = i;
  for (long k = 0; k < n; k++)
    for (long i = 0; i < n; i++)
      for (long j = 0; j < n; j++)
        if (d(i, j) <= max) c[i] = c[j] = std::min(c[i], c[j]);
  std::map<int64_t, std::vector<int64_t>> m;
  for (long i = 0; i < n; i++) m[c[i]].push_back(i);
  std::vector<std::vector<int64_t>> out;
  for (auto& x : m) out.push_back(x.second);
  return out;
}
int main() {
  unsigned long s = 12345;
  for (int t = 0; t < 3000; t++) {
    const int n = 5 + t % 3;
    std::vector<double> x;
    for (int i = 0; i < n; i++) {
      s = s * 6364136223846793005ul + 1442695040888963407ul;
      x.push_back((double)((s >> 33) % 1000) / 7.0);
    }
    Eigen::MatrixXd d(n, n);
    std::vector<int64_t> ids;
    for (int i = 0; i < n; i++) {
      ids.push_back(i);
      for (int j = 0; j < n; j++) d(i, j) = std::fabs(x[i] - x[j]);
    }
    for (double max : {10.0, 25.0, 40.0}) {
      auto got = S::Cluster(ids, d, max, SINGLE_LINK).first;
      std::vector<std::vector<int64_t>> g;
      for (auto c : got) {
        std::sort(c.begin(), c.end());
        if (!c.empty()) g.push_back(c);
      }
      std::sort(g.begin(), g.end());
      if (g != reference(d, max)) return 1;
    }
  }
  return 0;
}
"""),
"refresh-keeps-blocked": dict(prop="P18", edits=[("include/arc_utilities/simple_prm_planner.hpp", "        arc_dijkstras::GraphEdge& current_out_edge = current_node_out_edges[out_edge_idx];\n", "        arc_dijkstras::GraphEdge& current_out_edge = current_node_out_edges[out_edge_idx];\n        if (std::isinf(current_out_edge.getWeight())) continue;\n")],
 needs="a roadmap refreshed twice, an edge blocked at the first and free at the second refresh", breaks="the edge stays blocked, paths through it are not found",
 build="-include cmath -include Eigen/Core -include arc_utilities/math_helpers.hpp",
 demo="""#include <arc_utilities/graph.hpp>
#include <arc_utilities/simple_prm_planner.hpp>
int main() {
  arc_dijkstras::Graph<double> g;
  g.addNode(0.0);
  g.addNode(1.0);
  g.addNode(3.0);
  g.addEdgesBetweenNodes(0, 1, 1.0);
  g.addEdgesBetweenNodes(1, 2, 2.0);
  std::function<double(const double&, const double&)> d = [](const double& a, const double& b) { return std::fabs(a - b); };
  bool open = false;
  std::function<bool(const double&, const double&)> ok = [&](const double& a, const double& b) { return open || a + b > 2; };
  simple_prm_planner::SimpleGeometricPrmPlanner::UpdateRoadMapEdges(g, ok, d);
  open = true;
  simple_prm_planner::SimpleGeometricPrmPlanner::UpdateRoadMapEdges(g, ok, d);
  return g.getEdge(0, 1).getWeight() == 1.0 && g.getEdge(1, 2).getWeight() == 2.0 ? 0 : 1;
}
"""),
"travel-near-corner": dict(prop="P33", edits=[("src/arc_utilities/path_utils.py", "    if alpha != 0:\n        ind += 1\n", "    if alpha >= 0.05:\n        ind += 1\n")],
 needs="travelling backwards from a point shortly behind a corner", breaks="the corner is cut, the result leaves the path",
 py='''import sys, types
rospy = types.ModuleType("rospy")
t = types.ModuleType("trajectory_msgs")
t.msg = types.ModuleType("trajectory_msgs.msg")
t.msg.JointTrajectory = object
m = types.ModuleType("more_itertools")
m.pairwise = lambda x: zip(x[:-1], x[1:])
sys.modules.update({"rospy": rospy, "trajectory_msgs": t, "trajectory_msgs.msg": t.msg})
try:
    import more_itertools
except ImportError:
    sys.modules["more_itertools"] = m
import numpy as np
from arc_utilities.path_utils import travel_along
p = travel_along([(0, 0), (40, 0), (40, 40)], -3.0, (40, 1))
assert len(p) == 3 and np.allclose(p, [(40, 1), (40, 0), (38, 0)]), p
'''),
"nested-update-shares": dict(prop="P30", edits=[("src/arc_utilities/algorithms.py", "            base_dict[k] = v\n", "            base_dict[k] = v if v is not None else base_dict.get(k)\n")],
 needs="an update that sets an existing key to None", breaks="the old value stays",
 py='''from arc_utilities.algorithms import nested_dict_update
b = {"a": 1, "b": {"c": 2, "d": 3}}
nested_dict_update(b, {"a": 5, "b": {"c": None}, "e": None})
assert b == {"a": 5, "b": {"c": None, "d": 3}, "e": None}, b
'''),
"hausdorff-remembers": dict(prop="P15", edits=[("include/arc_utilities/simple_hausdorff_distance.hpp", "    std::vector<double> per_thread_storage(GetNumOMPThreads(), 0.0);\n", "    static std::vector<double> per_thread_storage(GetNumOMPThreads(), 0.0);\n")],
 needs="two calls of which the second has the smaller result", breaks="the second call returns the result of the first",
 build="-include cmath -include functional -include vector -include iostream -include cstdint -include Eigen/Geometry",
 demo="""#include <arc_utilities/simple_hausdorff_distance.hpp>
int main() {
  typedef std::vector<double> V;
  std::function<double(const double&, const double&)> d = [](const double& a, const double& b) { return std::fabs(a - b); };
  typedef simple_hausdorff_distance::SimpleHausdorffDistance H;
  const double a = H::ComputeDistance(V{0, 1}, V{0, 5}, d), b = H::ComputeDistance(V{0, 1}, V{0, 1.25}, d);
  return a == 1 && b == 0.25 ? 0 : 1;
}
"""),
}
