SEEDS = {
"zlib-final-block": dict(prop="P13", edits=[("src/arc_utilities/zlib_helpers.cpp", """  while (deflate_ret == Z_OK) {
    if (strm.avail_out == 0) {
      compressed.insert(compressed.end(), temp_buffer, temp_buffer + BUFSIZE);
""", """  while (deflate_ret == Z_OK) {
    if (strm.avail_out == 0) {
""")],
 needs="data whose compressed form fills an output block of one megabyte while the stream is being finished",
 breaks="a megabyte of compressed data is lost and the data cannot be restored",
 build="-include string -include vector -include cstdint src/arc_utilities/zlib_helpers.cpp",
 demo='''#include <arc_utilities/zlib_helpers.hpp>
int main() {
  for (size_t n = ((size_t)1 << 20) - 3000; n < ((size_t)1 << 20) + 40000; n += 1000) {
    std::vector<uint8_t> d(n);
    uint32_t x = 1;
    for (auto& b : d) {
      x ^= x << 13, x ^= x >> 17, x ^= x << 5;
      b = (uint8_t)x;
    }
    if (ZlibHelpers::DecompressBytes(ZlibHelpers::CompressBytes(d)) != d) return 1;
  }
  return 0;
}
'''),
"deform-diagonal-back": dict(prop="P11", edits=[("src/arc_utilities/first_order_deformation.cpp", "      if (!(row == config.first && col == config.second) && validity", "      if ((row >= config.first || col >= config.second) && !(row == config.first && col == config.second) && validity")],
 needs="forbidden pairs that leave a step back in both indices at once as the only way",
 breaks="an existing alignment is not found",
 build="-include vector -include functional -include algorithm -include sys/types.h src/arc_utilities/first_order_deformation.cpp",
 demo='''#include <arc_utilities/first_order_deformation.h>
int main() {
  const char* g[6] = {"......#", "#..###.", "..##.#.", ".##.#..", "..#.###", "..#...."};
  const auto p = arc_utilities::FirstOrderDeformation::GetFirstOrderDeformation(6, 7, [&](const ssize_t r, const ssize_t c) { return g[r][c] == '.'; });
  return p.empty() ? 1 : 0;
}
'''),
"profiler-recycled-series": dict(prop="P21", edits=[("src/arc_utilities/timing.cpp", "    m->data[name].resize(0);\n", "    // keep the storage for the next name\n    m->prealloc_buffer.push_back(std::vector<double>());\n    m->prealloc_buffer.back().swap(m->data[name]);\n")],
 needs="a name with data is reset and afterwards data for a new name is recorded",
 breaks="the new name starts with the values of the name that was reset",
 build="src/arc_utilities/timing.cpp",
 demo='''#include <limits>
#include <stdexcept>
#include <arc_utilities/timing.hpp>
using arc_utilities::Profiler;
int main() {
  Profiler::addData("a", 1.0);
  Profiler::addData("a", 2.0);
  Profiler::reset("a");
  Profiler::addData("b", 5.0);
  Profiler::addData("a", 7.0);
  return Profiler::getData("b") == std::vector<double>{5.0} && Profiler::getData("a") == std::vector<double>{7.0} ? 0 : 1;
}
'''),
"self-collision-one-way": dict(prop="P26", edits=[("include/arc_utilities/simple_robot_models.hpp", "      // Insert it both ways\n      allowed_self_collision_map(first_link_index, second_link_index) = 1;\n      allowed_self_collision_map(second_link_index, first_link_index) = 1;", "      // Links are looked up in order\n      allowed_self_collision_map(first_link_index, second_link_index) = 1;"),
  ("include/arc_utilities/simple_robot_models.hpp", "self_collision_map_((int64_t)link1_index, (int64_t)link2_index);", "self_collision_map_((int64_t)std::min(link1_index, link2_index), (int64_t)std::max(link1_index, link2_index));")],
 needs="an allowed pair listed with the larger link index first",
 breaks="an allowed self-collision is reported as not allowed",
 demo='''#include <arc_utilities/simple_robot_models.hpp>
using namespace simple_linked_robot_model;
int main() {
  std::vector<RobotLink> L{RobotLink("a"), RobotLink("b"), RobotLink("c")};
  std::vector<RobotJoint> J;
  for (int i = 0; i < 2; i++) J.push_back(RobotJoint(Eigen::Isometry3d::Identity(), Eigen::Vector3d::UnitZ(), i, i + 1, SimpleJointModel(), i ? "j1" : "j0"));
  std::vector<std::pair<std::string, int>> g{{"a", 0}, {"b", 0}, {"c", 0}};
  for (int k = 0; k < 2; k++) {
    std::vector<std::pair<size_t, size_t>> al;
    al.push_back(k ? std::make_pair((size_t)2, (size_t)0) : std::make_pair((size_t)0, (size_t)2));
    simple_robot_models::LinkedRobotWithGeometry<int> r(Eigen::Isometry3d::Identity(), L, J, {}, {}, g, al);
    if (!r.CheckIfSelfCollisionAllowed(0, 2) || !r.CheckIfSelfCollisionAllowed(2, 0) || r.CheckIfSelfCollisionAllowed(0, 1)) return 1;
  }
  return 0;
}
'''),
"log-move-assign": dict(prop="P22", edits=[("include/arc_utilities/log.hpp", "    std::swap(filename_, other.filename_);\n    other.out_file_.close();", "    other.out_file_.close();"),
  ("include/arc_utilities/log.hpp", "    out_file_.open(filename_, std::ios_base::out | std::ios_base::app);\n\n    return *this;", "    out_file_.open(other.filename_, std::ios_base::out | std::ios_base::app);\n\n    return *this;")],
 needs="a log object is assigned another log and then copied",
 breaks="the copy writes to the file the object referred to before the assignment",
 demo='''#include <ctime>
#include <sstream>
#include <arc_utilities/log.hpp>
static std::string slurp(const char* f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
int main() {
  Log::Log a("./one.log"), b("./two.log");
  a.logMessage("1");
  a = b;
  a.logMessage("2");
  Log::Log c(a);
  c.logMessage("3");
  return slurp("one.log") == "1\\n" && slurp("two.log") == "2\\n3\\n" ? 0 : 1;
}
'''),
"grid-region-corner": dict(prop="P05", edits=[("include/arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp", "    int64_t y_chunk_num = (int64_t)floor(raw_y_chunk_num);", "    int64_t y_chunk_num = (int64_t)raw_y_chunk_num - (raw_y_chunk_num < 0.0 ? 1 : 0);")],
 needs="a location exactly on a chunk face at a negative coordinate",
 breaks="the location is looked up in the chunk below its own, so chunks overlap at negative coordinates",
 demo='''#include <cassert>
#include <arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp>
int main() {
  typedef VoxelGrid::DynamicSpatialHashedVoxelGrid<int> G;
  G g(1.0, 1.0, 1.0, 2, 2, 2, 0);
  g.SetCellValue(0.5, -2.0, 0.5, 5);
  g.SetCellValue(0.5, -3.9, 0.5, 6);
  g.SetCellValue(0.5, -2.1, 0.5, 7);
  return g.GetImmutable(0.5, -2.0, 0.5).first == 5 && g.GetImmutable(0.5, -1.5, 0.5).first == 5 && g.GetImmutable(0.5, -3.9, 0.5).first == 6 && g.GetImmutable(0.5, -2.1, 0.5).first == 7 ? 0 : 1;
}
'''),
}
