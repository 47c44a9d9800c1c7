#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct UInt32_ {
  typedef std::shared_ptr<UInt32_<A>> Ptr;
  typedef std::shared_ptr<const UInt32_<A>> ConstPtr;
  std::uint32_t data = std::uint32_t();
};
typedef UInt32_<std::allocator<void>> UInt32;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::UInt32> {
  static const char *name() { return "std_msgs/UInt32"; }
  static std::string show(const std_msgs::UInt32 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::UInt32 &m) { m.data = std::strtoull(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
