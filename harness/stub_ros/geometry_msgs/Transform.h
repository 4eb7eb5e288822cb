#pragma once
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/Vector3.h>
namespace geometry_msgs {
struct Transform {
  Vector3 translation;
  Quaternion rotation;
};
}  // namespace geometry_msgs
