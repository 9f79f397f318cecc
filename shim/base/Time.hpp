#ifndef VP_SHIM_BASE_TIME_HPP
#define VP_SHIM_BASE_TIME_HPP
#include <cstdint>
#include <ostream>
#include <string>
#include <vector>
#include <map>
namespace base {
// Deterministic clock: checks must be a pure function of their inputs.
struct Time {
    int64_t microseconds;
    Time() : microseconds(0) {}
    explicit Time(int64_t us) : microseconds(us) {}
    static Time now() { static int64_t t = 1000000000000LL; return Time(++t); }
    static Time fromMicroseconds(int64_t v) { return Time(v); }
    static Time fromMilliseconds(int64_t v) { return Time(v*1000); }
    static Time fromSeconds(double v) { return Time(int64_t(v*1e6)); }
    int64_t toMicroseconds() const { return microseconds; }
    int64_t toMilliseconds() const { return microseconds/1000; }
    double toSeconds() const { return microseconds/1e6; }
    bool isNull() const { return microseconds == 0; }
    std::string toString() const { return std::to_string(microseconds); }
    bool operator<(const Time& o) const { return microseconds < o.microseconds; }
    bool operator>(const Time& o) const { return microseconds > o.microseconds; }
    bool operator<=(const Time& o) const { return microseconds <= o.microseconds; }
    bool operator>=(const Time& o) const { return microseconds >= o.microseconds; }
    bool operator==(const Time& o) const { return microseconds == o.microseconds; }
    bool operator!=(const Time& o) const { return microseconds != o.microseconds; }
    Time operator-(const Time& o) const { return Time(microseconds - o.microseconds); }
    Time operator+(const Time& o) const { return Time(microseconds + o.microseconds); }
};
inline std::ostream& operator<<(std::ostream& os, const Time& t) { return os << t.microseconds; }
}
#endif
