#ifndef STUB_STD_MSGS_Float64
#define STUB_STD_MSGS_Float64
#include "ros/ros.h"
namespace std_msgs
{
struct Float64
{
  typedef boost::shared_ptr< Float64 > Ptr;
  typedef boost::shared_ptr< Float64 const > ConstPtr;
  double data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::Float64> { static const bool value = true; }; }
#endif
