#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct Int8_ {
  typedef std::shared_ptr<Int8_<A>> Ptr;
  typedef std::shared_ptr<const Int8_<A>> ConstPtr;
  std::int8_t data = std::int8_t();
};
typedef Int8_<std::allocator<void>> Int8;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Int8> {
  static const char *name() { return "std_msgs/Int8"; }
  static std::string show(const std_msgs::Int8 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::Int8 &m) { m.data = std::strtoll(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
