#ifndef STUB_STD_MSGS_Empty
#define STUB_STD_MSGS_Empty
#include "ros/ros.h"
namespace std_msgs
{
struct Empty
{
  typedef boost::shared_ptr< Empty > Ptr;
  typedef boost::shared_ptr< Empty const > ConstPtr;
  uint8_t data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::Empty> { static const bool value = true; }; }
#endif
