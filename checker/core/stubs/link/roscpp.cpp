// Defines what the stub of roscpp declares.
#include "ros/ros.h"
namespace ros
{
Duration::Duration(double) {}
Duration::Duration(int32_t, int32_t) {}
Time Time::now() { return Time(); }
void Timer::stop() {}
void Timer::start() {}
void Subscriber::shutdown() {}
std::string Publisher::getTopic() const { return ""; }
void Publisher::shutdown() {}
NodeHandle::NodeHandle(const std::string&) {}
void init(int&, char**, const std::string&, uint32_t) {}
bool ok() { return true; }
void spin() {}
void spinOnce() {}
void shutdown() {}
void log(const char*, const std::string&) {}
}
