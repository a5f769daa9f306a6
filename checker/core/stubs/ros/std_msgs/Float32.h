#ifndef STUB_STD_MSGS_Float32
#define STUB_STD_MSGS_Float32
#include "ros/ros.h"
namespace std_msgs
{
struct Float32
{
  typedef boost::shared_ptr< Float32 > Ptr;
  typedef boost::shared_ptr< Float32 const > ConstPtr;
  float data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::Float32> { static const bool value = true; }; }
#endif
