#pragma once
#include <ros/serialization.h>
namespace geometry_msgs {
struct Quaternion {
  double x = 0, y = 0, z = 0, w = 0;
};
}  // namespace geometry_msgs
