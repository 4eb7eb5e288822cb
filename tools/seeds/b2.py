SEEDS = {
"subdirs-hidden": dict(prop="P31", edits=[("src/arc_utilities/filesystem_utils.py", "[file for file in results_dir.iterdir() if file.is_dir()]", "[file for file in results_dir.glob('[!.]*') if file.is_dir()]")],
 needs="a direct subdirectory whose name begins with a dot", breaks="the subdirectory is not listed",
 py='''import os, pathlib, tempfile
from arc_utilities.filesystem_utils import get_all_subdirs
with tempfile.TemporaryDirectory() as d:
    for n in ("a", ".cache", "b.c"):
        os.mkdir(d + "/" + n)
    open(d + "/f", "w").close()
    assert sorted(p.name for p in get_all_subdirs([pathlib.Path(d)])) == [".cache", "a", "b.c"]
'''),
"conditional-try-exit": dict(prop="P30", edits=[("src/arc_utilities/conditional_try.py", "        except Exception:\n", "        except BaseException:\n")],
 needs="the guarded function is interrupted or asks the program to exit", breaks="the interruption is swallowed",
 py='''from arc_utilities.conditional_try import conditional_try
def f():
    raise KeyboardInterrupt()
try:
    conditional_try(True, f)
except KeyboardInterrupt:
    raise SystemExit(0)
raise SystemExit(1)
'''),
"retry-without-callback": dict(prop="P32", edits=[("src/arc_utilities/catches.py", """                it = gen(*gen_args, **gen_kwargs)  # reset the generator
                if on_timeout is not None:
                    on_timeout()
""", """                if on_timeout is not None:
                    on_timeout()
                    it = gen(*gen_args, **gen_kwargs)  # reset the generator
""")],
 needs="a time-out while iterating without a time-out callback", breaks="the iteration is not started over",
 py='''import time
from arc_utilities.catches import retry_on_timeout
runs = []
def gen():
    runs.append(1)
    yield 1
    if len(runs) == 1:
        time.sleep(3)
    yield 2
got = list(retry_on_timeout(1, None, gen))
assert got == [1, 1, 2], got
'''),
"dtw-reuse-shape": dict(prop="P14", edits=[("include/arc_utilities/simple_dtw.hpp", "    if (dtw_matrix_.rows() < rows || dtw_matrix_.cols() < cols) {\n      dtw_matrix_ = Eigen::MatrixXd::Zero(rows, cols);\n", "    if (dtw_matrix_.rows() < rows || dtw_matrix_.cols() < cols) {\n      dtw_matrix_.conservativeResize(std::max(rows, (ssize_t)dtw_matrix_.rows()), std::max(cols, (ssize_t)dtw_matrix_.cols()));\n")],
 needs="an evaluator that is reused and grows in one dimension while the other stays larger than the new sequences need",
 breaks="part of the border is left uninitialized or holds old costs, the warping cost is wrong",
 build="-include cmath -include functional -include limits",
 demo='''#include <Eigen/Dense>
#include <vector>
#include <arc_utilities/simple_dtw.hpp>
#include <cstdlib>
#include <cstring>
static double fill = 1;
int main() {
  auto d = [](const double& a, const double& b) { return std::fabs(a - b); };
  // dirty the heap with small negative numbers
  for (int k = 0; k < 200; k++) {
    std::vector<double*> v;
    for (size_t n = 1; n < 60; n++) {
      double* p = (double*)malloc(n * sizeof(double));
      for (size_t i = 0; i < n; i++) p[i] = -5;
      v.push_back(p);
    }
    for (auto p : v) free(p);
    simple_dtw::SimpleDTW<double, double, decltype(d)> e;
    std::vector<double> a{1, 2, 3, 4, 5}, b{1}, c{2, 2}, g{0, 7, 1, 3};
    const std::vector<std::vector<double>*> all{&a, &b, &c, &g};
    for (auto x : all)
      for (auto y : all) {
        simple_dtw::SimpleDTW<double, double, decltype(d)> fresh((*x).size(), (*y).size());
        if (e.EvaluateWarpingCost(*x, *y, d) != fresh.EvaluateWarpingCost(*x, *y, d)) return 1;
      }
  }
  return 0;
}
'''),
"astar-closed-set": dict(prop="P09", edits=[("include/arc_utilities/dijkstras.hpp", "        if (explored.count(child_id) && child_cost_to_come >= explored[child_id].second) {\n          continue;\n        }\n", "        if (explored.count(child_id)) {\n          continue;\n        }\n"), ],
 needs="an admissible heuristic that is not consistent, and a node that is first reached on a longer way", breaks="the path found is not a shortest one",
 build="-I /usr/include/eigen3",
 demo='''#include <Eigen/Core>
#include <cassert>
#include <limits>
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/graph.hpp>
#include <arc_utilities/dijkstras.hpp>
int main() {
  arc_dijkstras::Graph<int> g;
  for (int i = 0; i < 5; i++) g.addNode(i);
  // 0 -> 1 -> 2 -> 3 costs 1 + 1 + 10, 0 -> 2 costs 3; the heuristic holds node 1 back
  g.addEdgeBetweenNodes(0, 1, 1);
  g.addEdgeBetweenNodes(1, 2, 1);
  g.addEdgeBetweenNodes(0, 2, 3);
  g.addEdgeBetweenNodes(2, 3, 10);
  const double h[5] = {0, 11, 0, 0, 0};
  for (bool limit : {false, true}) {
    const auto r = arc_dijkstras::SimpleGraphAstar<int>::PerformAstar(g, 0, 3, [&](const int& a, const int&) { return h[a]; }, limit);
    if (r.second != 12.0) return 1;
  }
  return 0;
}
'''),
"kmeans-last-label": dict(prop="P17", edits=[("include/arc_utilities/simple_kmeans_clustering.hpp", "    for (size_t idx = 0; idx < old_labels.size(); idx++) {\n      const uint32_t old_label", "    for (size_t idx = 0; idx + 1 < old_labels.size(); idx++) {\n      const uint32_t old_label")],
 needs="an iteration in which only the last point changes its cluster", breaks="the clustering stops before it has settled",
 demo='''#include <functional>
#include <cstdint>
#include <limits>
#include <map>
#include <random>
#include <chrono>
#include <cassert>
#include <cmath>
#include <vector>
#include <arc_utilities/simple_kmeans_clustering.hpp>
int main() {
  std::function<double(const double&, const double&)> d = [](const double& a, const double& b) { return std::fabs(a - b); };
  std::function<double(const std::vector<double>&)> avg = [](const std::vector<double>& v) { double s = 0; for (double x : v) s += x; return s / v.size(); };
  for (int a = 0; a < 9; a++)
    for (int b = 0; b < 9; b++)
      for (int c = 0; c < 9; c++)
        for (int e = 0; e < 9; e++) {
          const std::vector<double> p{(double)a, (double)b, (double)c, (double)e};
          const auto r = simple_kmeans_clustering::SimpleKMeansClustering::Cluster(p, d, avg, std::vector<double>{p[0] + 0.25, p[1] + 0.5});
          // settled: every centre with members is their average
          for (uint32_t k = 0; k < 2; k++) {
            std::vector<double> m;
            for (size_t i = 0; i < 4; i++)
              if (r.first[i] == k) m.push_back(p[i]);
            if (!m.empty() && std::fabs(avg(m) - r.second[k]) > 1e-9) return 1;
          }
        }
  return 0;
}
'''),

"upsample-halving": dict(prop="P20", edits=[("include/arc_utilities/path_utils.hpp", "      const double new_length = individual_lengths[segment_ind] / new_count;\n", "      const double new_length = largest.first / 2.0;\n")],
 needs="a segment that is divided into three or more pieces while another one competes", breaks="points are not placed where the gaps are largest",
 demo="""#include <cassert>
#include <cmath>
#include <queue>
#include <vector>
#include <arc_utilities/arc_exceptions.hpp>
#include <arc_utilities/arc_helpers.hpp>
#include <arc_utilities/path_utils.hpp>
int main() {
  auto d = [](const double& a, const double& b) { return std::fabs(a - b); };
  auto in = [](const double& a, const double& b, double t) { return a + (b - a) * t; };
  // gaps 9 and 2.8: with three more points, four pieces of 2.25 and one of 2.8 are the best
  const std::vector<double> p{0, 9, 11.8};
  const auto r = path_utils::UpsamplePath(p, 6, d, in);
  double worst = 0;
  for (size_t i = 0; i + 1 < r.size(); i++) worst = std::max(worst, std::fabs(r[i + 1] - r[i]));
  return worst > 2.8 + 1e-9;
}
"""),
"path-assign-switching": dict(prop="P25", edits=[("src/arc_utilities/time_optimal_trajectory_parametrization.cpp", "  std::swap(length_, path.length_);\n  switching_points_.swap(path.switching_points_);\n", "  std::swap(length_, path.length_);\n  if (switching_points_.empty()) {\n    switching_points_.swap(path.switching_points_);\n  }\n")],
 needs="a path with corners is overwritten by another path", breaks="the overwritten path keeps its old switching points",
 build="-include list -include fstream -include iostream src/arc_utilities/time_optimal_trajectory_parametrization.cpp",
 demo="""#include <arc_utilities/time_optimal_trajectory_parametrization.hpp>
using namespace time_optimal_trajectory_parametrization;
static Eigen::VectorXd v(double a, double b) { Eigen::VectorXd r(2); r << a, b; return r; }
int main() {
  const Path a({v(0, 0), v(1, 0), v(1, 1)}, 0.1), b({v(0, 0), v(5, 1), v(6, 9), v(2, 2)}, 0.2);
  Path p(a);
  p = b;
  return p.SwitchingPoints() == b.SwitchingPoints() && p.Length() == b.Length() ? 0 : 1;
}
"""),
"spline-stale-targets": dict(prop="P36", edits=[("include/arc_utilities/thin_plate_spline.hpp", "    target_points_ = target_points;\n    solved_ = false;\n", "    solved_ = solved_ && target_points_.cols() == target_points.cols();\n    target_points_ = target_points;\n")],
 needs="the targets of a spline that has been solved are replaced by as many others", breaks="the spline still maps to the old targets",
 build="-I /usr/include/eigen3",
 demo="""#include <Eigen/Dense>
#include <arc_utilities/thin_plate_spline.hpp>
int main() {
  Eigen::Matrix<double, 2, Eigen::Dynamic> a(2, 4), b(2, 4);
  a << 0, 1, 0, 1, 0, 0, 1, 1;
  b << 3, 4, 3, 5, 0, 0, 1, 1;
  arc_utilities::ThinPlateSpline<2> s(a, a);
  s.interpolate(a);
  s.setTargetPoints(b);
  return (s.interpolate(a) - b).norm() < 1e-6 ? 0 : 1;
}
"""),
"neighbours-lower-bound": dict(prop="P37", edits=[("include/arc_utilities/get_neighbours.hpp", "neighbour[1] <= max_vector[1] && min_vector[2] <= neighbour[2] && neighbour[2] <= max_vector[2] &&", "neighbour[1] <= max_vector[1] && std::min(min_vector[2], config[2] - step_size) <= neighbour[2] && neighbour[2] <= max_vector[2] &&")],
 needs="a cell on the lower z bound of the box", breaks="cells below the box are returned",
 demo="""#include <array>
#include <arc_utilities/get_neighbours.hpp>
struct C {
  double v[3];
  C(double a = 0, double b = 0, double c = 0) : v{a, b, c} {}
  const double& operator[](int i) const { return v[i]; }
};
int main() {
  const auto n = arc_utilities::GetNeighbours::ThreeDimensional8Connected<C, double>(C(1, 1, 0), 0, 2, 0, 2, 0, 2, 1, [](const C& c) { return c; }, [](const C&) { return true; });
  return n.size() == 17 ? 0 : 1;
}
"""),
"closest-early-stop": dict(prop="P33", edits=[("src/arc_utilities/path_utils.py", "            point_close = p\n            ind_close = ind\n", "            point_close = p\n            ind_close = ind\n        elif d > 2 * d_close:\n            break\n")],
 needs="a path that goes far away from the query and comes back closer", breaks="the point returned is not a closest one",
 py="""import sys, types
rospy = types.ModuleType("rospy")
t = types.ModuleType("trajectory_msgs")
t.msg = types.ModuleType("trajectory_msgs.msg")
t.msg.JointTrajectory = object
m = types.ModuleType("more_itertools")
m.pairwise = lambda x: zip(x[:-1], x[1:])
sys.modules.update({"rospy": rospy, "trajectory_msgs": t, "trajectory_msgs.msg": t.msg})
try:
    import more_itertools
except ImportError:
    sys.modules["more_itertools"] = m
from arc_utilities.path_utils import closest_point
p, i, a = closest_point([(0, 1), (0, 9), (8, 9), (8, 0), (0, 0)], (0, 0.25))
assert i == 4 or (i == 3 and a > 0.9), (p, i, a)
"""),
}
