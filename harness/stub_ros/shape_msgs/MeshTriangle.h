#pragma once
#include <boost/array.hpp>
#include <cstdint>
namespace shape_msgs {
struct MeshTriangle {
  boost::array<uint32_t, 3> vertex_indices{};
};
}  // namespace shape_msgs
