#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct UInt8_ {
  typedef std::shared_ptr<UInt8_<A>> Ptr;
  typedef std::shared_ptr<const UInt8_<A>> ConstPtr;
  std::uint8_t data = std::uint8_t();
};
typedef UInt8_<std::allocator<void>> UInt8;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::UInt8> {
  static const char *name() { return "std_msgs/UInt8"; }
  static std::string show(const std_msgs::UInt8 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::UInt8 &m) { m.data = std::strtoull(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
