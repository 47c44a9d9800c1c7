#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct Float32_ {
  typedef std::shared_ptr<Float32_<A>> Ptr;
  typedef std::shared_ptr<const Float32_<A>> ConstPtr;
  float data = float();
};
typedef Float32_<std::allocator<void>> Float32;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Float32> {
  static const char *name() { return "std_msgs/Float32"; }
  static std::string show(const std_msgs::Float32 &m) { std::ostringstream o; o.precision(17); o << std::boolalpha << m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::Float32 &m) { m.data = std::strtod(s.c_str(), nullptr); }
};
} // namespace ros_stub
