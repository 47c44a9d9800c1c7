#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct UInt64_ {
  typedef std::shared_ptr<UInt64_<A>> Ptr;
  typedef std::shared_ptr<const UInt64_<A>> ConstPtr;
  std::uint64_t data = std::uint64_t();
};
typedef UInt64_<std::allocator<void>> UInt64;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::UInt64> {
  static const char *name() { return "std_msgs/UInt64"; }
  static std::string show(const std_msgs::UInt64 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::UInt64 &m) { m.data = std::strtoull(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
