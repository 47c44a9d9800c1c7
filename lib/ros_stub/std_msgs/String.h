#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct String_ {
  typedef std::shared_ptr<String_<A>> Ptr;
  typedef std::shared_ptr<const String_<A>> ConstPtr;
  std::string data = std::string();
};
typedef String_<std::allocator<void>> String;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::String> {
  static const char *name() { return "std_msgs/String"; }
  static std::string show(const std_msgs::String &m) { std::ostringstream o; o << std::boolalpha; o << m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::String &m) { m.data = s; }
};
} // namespace ros_stub
