#ifndef STUB_STD_MSGS_UInt64
#define STUB_STD_MSGS_UInt64
#include "ros/ros.h"
namespace std_msgs
{
struct UInt64
{
  typedef boost::shared_ptr< UInt64 > Ptr;
  typedef boost::shared_ptr< UInt64 const > ConstPtr;
  uint64_t data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::UInt64> { static const bool value = true; }; }
#endif
