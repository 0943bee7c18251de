#pragma once
#include "Time.hpp"
namespace base { struct TimeMark { TimeMark(std::string const&); Time mark; std::string label; double cpu() const; Time passed() const; }; std::ostream& operator<<(std::ostream&, TimeMark const&);}
