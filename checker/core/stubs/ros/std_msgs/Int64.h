#ifndef STUB_STD_MSGS_Int64
#define STUB_STD_MSGS_Int64
#include "ros/ros.h"
namespace std_msgs
{
struct Int64
{
  typedef boost::shared_ptr< Int64 > Ptr;
  typedef boost::shared_ptr< Int64 const > ConstPtr;
  int64_t data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::Int64> { static const bool value = true; }; }
#endif
