#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct UInt16_ {
  typedef std::shared_ptr<UInt16_<A>> Ptr;
  typedef std::shared_ptr<const UInt16_<A>> ConstPtr;
  std::uint16_t data = std::uint16_t();
};
typedef UInt16_<std::allocator<void>> UInt16;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::UInt16> {
  static const char *name() { return "std_msgs/UInt16"; }
  static std::string show(const std_msgs::UInt16 &m) { std::ostringstream o; o << std::boolalpha; o << +m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::UInt16 &m) { m.data = std::strtoull(s.c_str(), nullptr, 10); }
};
} // namespace ros_stub
