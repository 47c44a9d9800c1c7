#pragma once
#include "ros/ros.h"
#include <cstdint>
namespace std_msgs {
template <class A> struct Bool_ {
  typedef std::shared_ptr<Bool_<A>> Ptr;
  typedef std::shared_ptr<const Bool_<A>> ConstPtr;
  bool data = bool();
};
typedef Bool_<std::allocator<void>> Bool;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Bool> {
  static const char *name() { return "std_msgs/Bool"; }
  static std::string show(const std_msgs::Bool &m) { std::ostringstream o; o << std::boolalpha; o << m.data; return o.str(); }
  static void parse(const std::string &s, std_msgs::Bool &m) { m.data = s == "true" || s == "1"; }
};
} // namespace ros_stub
