#pragma once
#include "ros/ros.h"
namespace sensor_msgs {
template <class A> struct BatteryState_ {
  typedef std::shared_ptr<BatteryState_<A>> Ptr;
  typedef std::shared_ptr<const BatteryState_<A>> ConstPtr;
  float percentage = float();
};
typedef BatteryState_<std::allocator<void>> BatteryState;
} // namespace sensor_msgs
namespace ros_stub {
template <> struct Codec<sensor_msgs::BatteryState> {
  static const char *name() { return "sensor_msgs/BatteryState"; }
  static std::string show(const sensor_msgs::BatteryState &m) { std::ostringstream o; o << m.percentage; return o.str(); }
  static void parse(const std::string &s, sensor_msgs::BatteryState &m) { m.percentage = std::strtof(s.c_str(), nullptr); }
};
} // namespace ros_stub
