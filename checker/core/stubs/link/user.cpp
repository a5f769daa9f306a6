// Defines what the stubs of the user's headers declare.
#include "inc_one.h"
namespace usr
{
std::ostream& operator<<(std::ostream& s, const TyOne& x) { return s << x.one; }
std::ostream& operator<<(std::ostream& s, const TyTwo& x) { return s << x.two; }
std::istream& operator>>(std::istream& s, TyOne& x) { return s >> x.one; }
std::istream& operator>>(std::istream& s, TyTwo& x) { return s >> x.two; }
}
