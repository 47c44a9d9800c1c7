#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct Float64_ {
  typedef std::shared_ptr<Float64_<A>> Ptr;
  typedef std::shared_ptr<const Float64_<A>> ConstPtr;
  double data = double();
};
typedef Float64_<std::allocator<void>> Float64;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Float64> {
  static const char *name() { return "std_msgs/Float64"; }
  static std::string show(const std_msgs::Float64 &m) { std::ostringstream o; o.precision(17); o << std::boolalpha << m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::Float64 &m) { m.data = std::strtod(s.c_str(), nullptr); }
};
} // namespace ros_stub
