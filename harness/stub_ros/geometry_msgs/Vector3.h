#pragma once
#include <ros/serialization.h>
namespace geometry_msgs {
struct Vector3 {
  double x = 0, y = 0, z = 0;
};
}  // namespace geometry_msgs
