#ifndef STUB_STD_MSGS_Int32
#define STUB_STD_MSGS_Int32
#include "ros/ros.h"
namespace std_msgs
{
struct Int32
{
  typedef boost::shared_ptr< Int32 > Ptr;
  typedef boost::shared_ptr< Int32 const > ConstPtr;
  int32_t data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::Int32> { static const bool value = true; }; }
#endif
