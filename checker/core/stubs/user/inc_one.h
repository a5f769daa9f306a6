// What a user's includes and types look like to the generated code.
#ifndef STUB_INC_ONE
#define STUB_INC_ONE
#include <iostream>
#include <memory>
namespace usr
{
struct TyOne
{
  typedef std::shared_ptr<TyOne> Ptr;
  typedef std::shared_ptr<TyOne const> ConstPtr;
  int one;
};
struct TyTwo
{
  typedef std::shared_ptr<TyTwo> Ptr;
  typedef std::shared_ptr<TyTwo const> ConstPtr;
  int two;
};
std::ostream& operator<<(std::ostream& s, const TyOne& x);
std::ostream& operator<<(std::ostream& s, const TyTwo& x);
std::istream& operator>>(std::istream& s, TyOne& x);
std::istream& operator>>(std::istream& s, TyTwo& x);
}
namespace ros
{
template <class M> struct IsMessage;
template <> struct IsMessage<usr::TyOne> { static const bool value = true; };
template <> struct IsMessage<usr::TyTwo> { static const bool value = true; };
}
#endif
