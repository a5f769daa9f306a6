// Declarations of the part of roscpp that generated drivers use, with roscpp's types of callbacks.
#ifndef STUB_ROS_H
#define STUB_ROS_H
#include <cstdint>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <utility>

namespace boost
{
template <class T> using shared_ptr = std::shared_ptr<T>;
}

namespace ros
{
// Message types have the traits of messages.
template <class M> struct IsMessage { static const bool value = false; };

// Adapts parameter types of callbacks: M, const M&, const shared_ptr<const M>&, shared_ptr<const M>.
template <class P> struct Parameter { typedef P Message; };
template <class M> struct Parameter<const M&> { typedef M Message; };
template <class M> struct Parameter<boost::shared_ptr<M const> > { typedef M Message; };
template <class M> struct Parameter<const boost::shared_ptr<M const> > { typedef M Message; };
template <class M> struct Parameter<const boost::shared_ptr<M const>&> { typedef M Message; };
template <class M> struct Parameter<boost::shared_ptr<M> > { typedef M Message; };
template <class M> struct Parameter<const boost::shared_ptr<M>&> { typedef M Message; };
template <class M> struct Parameter<const M> { typedef M Message; };

class Duration
{
public:
  explicit Duration(double seconds);
  Duration(int32_t sec, int32_t nsec);
};

class Time
{
public:
  static Time now();
};

struct TimerEvent
{
  Time last_expected, last_real, current_expected, current_real;
};

class Timer
{
public:
  void stop();
  void start();
};

class Subscriber
{
public:
  void shutdown();
};

class Publisher
{
public:
  template <class M> void publish(const M& message) const
  {
    static_assert(IsMessage<M>::value, "only messages can be published");
  }
  template <class M> void publish(const boost::shared_ptr<M>& message) const
  {
    static_assert(IsMessage<M>::value, "only messages can be published");
  }
  std::string getTopic() const;
  void shutdown();
};

class NodeHandle
{
public:
  NodeHandle(const std::string& ns = std::string());

  template <class M> Publisher advertise(const std::string& topic, uint32_t queue_size, bool latch = false)
  {
    static_assert(IsMessage<M>::value, "only messages can be advertised");
    return Publisher();
  }

  template <class P, class T> Subscriber subscribe(const std::string& topic, uint32_t queue_size, void (T::*fp)(P), T* obj)
  {
    static_assert(IsMessage<typename Parameter<P>::Message>::value, "only messages can be subscribed to");
    return Subscriber();
  }

  template <class T> Timer createTimer(Duration period, void (T::*callback)(const TimerEvent&), T* obj, bool oneshot = false, bool autostart = true) const
  {
    return Timer();
  }
};

void init(int& argc, char** argv, const std::string& name, uint32_t options = 0);
bool ok();
void spin();
void spinOnce();
void shutdown();
void log(const char* level, const std::string& text);
}

#define STUB_ROS_STREAM(level, args) do { std::stringstream stub_ss; stub_ss << args; ros::log(level, stub_ss.str()); } while (0)
#define ROS_DEBUG_STREAM(args) STUB_ROS_STREAM("debug", args)
#define ROS_INFO_STREAM(args) STUB_ROS_STREAM("info", args)
#define ROS_WARN_STREAM(args) STUB_ROS_STREAM("warn", args)
#define ROS_ERROR_STREAM(args) STUB_ROS_STREAM("error", args)
#define ROS_FATAL_STREAM(args) STUB_ROS_STREAM("fatal", args)
#endif
