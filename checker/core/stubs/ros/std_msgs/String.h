#ifndef STUB_STD_MSGS_String
#define STUB_STD_MSGS_String
#include "ros/ros.h"
namespace std_msgs
{
struct String
{
  typedef boost::shared_ptr< String > Ptr;
  typedef boost::shared_ptr< String const > ConstPtr;
  std::string data;
};
}
namespace ros { template <> struct IsMessage<std_msgs::String> { static const bool value = true; }; }
#endif
