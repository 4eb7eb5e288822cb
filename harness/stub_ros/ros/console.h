#pragma once
#include <iomanip>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace ros {
struct StubLine {
  std::string level, name, text;
};
inline std::vector<StubLine>& stub_log() {
  static std::vector<StubLine> l;
  return l;
}
}  // namespace ros
#define STUB_LOG(level, name, x)                                \
  do {                                                          \
    std::ostringstream os_;                                     \
    os_ << x;                                                   \
    if (ros::stub_log().size() > 10000) ros::stub_log().clear();\
    ros::stub_log().push_back(ros::StubLine{level, name, os_.str()}); \
  } while (0)
#define ROS_FATAL_STREAM(x) STUB_LOG("fatal", "", x)
#define ROS_ERROR_STREAM(x) STUB_LOG("error", "", x)
#define ROS_WARN_STREAM(x) STUB_LOG("warn", "", x)
#define ROS_INFO_STREAM(x) STUB_LOG("info", "", x)
#define ROS_DEBUG_STREAM(x) STUB_LOG("debug", "", x)
#define ROS_FATAL_STREAM_NAMED(n, x) STUB_LOG("fatal", n, x)
#define ROS_ERROR_STREAM_NAMED(n, x) STUB_LOG("error", n, x)
#define ROS_WARN_STREAM_NAMED(n, x) STUB_LOG("warn", n, x)
#define ROS_INFO_STREAM_NAMED(n, x) STUB_LOG("info", n, x)
#define ROS_DEBUG_STREAM_NAMED(n, x) STUB_LOG("debug", n, x)
namespace ros {
namespace console {
namespace levels {
enum Level { Debug, Info, Warn, Error, Fatal, Count };
}
typedef levels::Level Level;
inline std::vector<std::pair<std::string, Level>>& stub_levels() {
  static std::vector<std::pair<std::string, Level>> v;
  return v;
}
inline bool set_logger_level(const std::string& name, Level l) {
  stub_levels().push_back({name, l});
  return true;
}
inline void notifyLoggerLevelsChanged() {}
}  // namespace console
}  // namespace ros
#define ROSCONSOLE_DEFAULT_NAME "ros"
