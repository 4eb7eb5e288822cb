#pragma once
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Wrench {
  Vector3 force, torque;
};
}  // namespace geometry_msgs
