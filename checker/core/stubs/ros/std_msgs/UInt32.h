#ifndef STUB_STD_MSGS_UInt32
#define STUB_STD_MSGS_UInt32
#include "ros/ros.h"
namespace std_msgs
{
struct UInt32
{
  typedef boost::shared_ptr< UInt32 > Ptr;
  typedef boost::shared_ptr< UInt32 const > ConstPtr;
  uint32_t data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::UInt32> { static const bool value = true; }; }
#endif
