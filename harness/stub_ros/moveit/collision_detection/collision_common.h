// Stand-in for the parts of moveit's collision result the library prints.
#pragma once
#include <cstddef>
#include <map>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
namespace collision_detection {
struct Contact {
  std::string body_name_1, body_name_2;
  double depth = 0;
};
struct CollisionResult {
  bool collision = false;
  double distance = 0;
  std::size_t contact_count = 0;
  typedef std::map<std::pair<std::string, std::string>, std::vector<Contact>> ContactMap;
  ContactMap contacts;
};
}  // namespace collision_detection
