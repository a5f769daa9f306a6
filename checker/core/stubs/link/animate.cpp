// A user's conversions of the overridden channels, and what the stubs of the user's headers need to link.
#include <string>
#include "inc_one.h"
int fromFromB_2(const usr::TyOne msg) { return msg.one; }
usr::TyOne toFromB_2(const int value) { usr::TyOne r; r.one = value; return r; }
std::string fromInIvoryMsg(const usr::TyTwo msg) { return msg.two ? "a" : "b"; }
usr::TyTwo toInIvoryMsg(const std::string value) { usr::TyTwo r; r.two = value.size(); return r; }
unsigned int fromK9Callback(const usr::TyOne msg) { return msg.one; }
usr::TyOne toK9Callback(const unsigned int value) { usr::TyOne r; r.one = value; return r; }
usr::TyOne toFromB_2(const double value) { usr::TyOne r; r.one = static_cast<int>(value); return r; }
usr::TyOne toK9Callback(const int value) { usr::TyOne r; r.one = value; return r; }
