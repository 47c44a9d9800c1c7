#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct Int16_ {
  typedef std::shared_ptr<Int16_<A>> Ptr;
  typedef std::shared_ptr<const Int16_<A>> ConstPtr;
  std::int16_t data = std::int16_t();
};
typedef Int16_<std::allocator<void>> Int16;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Int16> {
  static const char *name() { return "std_msgs/Int16"; }
  static std::string show(const std_msgs::Int16 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::Int16 &m) { m.data = std::strtoll(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
