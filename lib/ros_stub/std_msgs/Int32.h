#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct Int32_ {
  typedef std::shared_ptr<Int32_<A>> Ptr;
  typedef std::shared_ptr<const Int32_<A>> ConstPtr;
  std::int32_t data = std::int32_t();
};
typedef Int32_<std::allocator<void>> Int32;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Int32> {
  static const char *name() { return "std_msgs/Int32"; }
  static std::string show(const std_msgs::Int32 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::Int32 &m) { m.data = std::strtoll(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
