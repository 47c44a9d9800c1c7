#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct Int64_ {
  typedef std::shared_ptr<Int64_<A>> Ptr;
  typedef std::shared_ptr<const Int64_<A>> ConstPtr;
  std::int64_t data = std::int64_t();
};
typedef Int64_<std::allocator<void>> Int64;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Int64> {
  static const char *name() { return "std_msgs/Int64"; }
  static std::string show(const std_msgs::Int64 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::Int64 &m) { m.data = std::strtoll(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
