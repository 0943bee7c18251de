#pragma once
#include <limits>
#include <cmath>
namespace base {
template<typename T> T unset() { return std::numeric_limits<T>::quiet_NaN(); }
template<typename T> bool isUnset(T v) { return v != v; }
template<typename T> T unknown() { return std::numeric_limits<T>::quiet_NaN(); }
template<typename T> T infinity() { return std::numeric_limits<T>::infinity(); }
}
