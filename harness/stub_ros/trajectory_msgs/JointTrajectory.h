// Stand-in for the generated message: the fields the library uses, with ROS duration arithmetic.
#pragma once
#include <algorithm>
#include <stdexcept>
#include <string>
#include <vector>

#include <ros/time.h>
#include <std_msgs/Header.h>
namespace trajectory_msgs {
struct JointTrajectoryPoint {
  std::vector<double> positions, velocities, accelerations, effort;
  ros::Duration time_from_start;
};
struct JointTrajectory {
  std_msgs::Header header;
  std::vector<std::string> joint_names;
  std::vector<JointTrajectoryPoint> points;
};
}  // namespace trajectory_msgs
