#pragma once
#include "ros/ros.h"
namespace std_msgs {
template <class A> struct Empty_ {
  typedef std::shared_ptr<Empty_<A>> Ptr;
  typedef std::shared_ptr<const Empty_<A>> ConstPtr;
};
typedef Empty_<std::allocator<void>> Empty;
} // namespace std_msgs
namespace ros_stub {
template <> struct Codec<std_msgs::Empty> {
  static const char *name() { return "std_msgs/Empty"; }
  static std::string show(const std_msgs::Empty &) { return ""; }
  static void parse(const std::string &, std_msgs::Empty &) {}
};
} // namespace ros_stub
