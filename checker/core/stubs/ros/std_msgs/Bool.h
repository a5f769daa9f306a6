#ifndef STUB_STD_MSGS_Bool
#define STUB_STD_MSGS_Bool
#include "ros/ros.h"
namespace std_msgs
{
struct Bool
{
  typedef boost::shared_ptr< Bool > Ptr;
  typedef boost::shared_ptr< Bool const > ConstPtr;
  uint8_t data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::Bool> { static const bool value = true; }; }
#endif
