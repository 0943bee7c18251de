#pragma once
#include <stdint.h>
#include <string>
#include <ostream>
namespace base {
struct Time {
    int64_t microseconds;
    Time() : microseconds(0) {}
    static Time now();
    static Time fromMicroseconds(uint64_t);
    static Time fromSeconds(double);
    static Time fromSeconds(int64_t, int);
    double toSeconds() const;
    int64_t toMicroseconds() const;
    bool isNull() const;
    std::string toString() const;
    bool operator<(Time const&) const;
    bool operator>(Time const&) const;
    bool operator==(Time const&) const;
    bool operator!=(Time const&) const;
    bool operator<=(Time const&) const;
    bool operator>=(Time const&) const;
    Time operator-(Time const&) const;
    Time operator+(Time const&) const;
};
std::ostream& operator<<(std::ostream&, Time const&);
}
