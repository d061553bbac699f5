// What the verified sources use of rclcpp: time arithmetic (rclcpp::Time/Duration semantics: nanosecond integers,
// exceptions on overflow omitted), loggers that discard.
#pragma once
#include <builtin_interfaces/msg/time.hpp>
#include <builtin_interfaces/msg/duration.hpp>
#include <chrono>
#include <cstdint>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#define RCL_ROS_TIME 1
#define RCL_SYSTEM_TIME 2
using rcl_clock_type_t = int;
using rcl_time_point_value_t = int64_t;
namespace rclcpp
{
class Duration
{
  int64_t ns_ = 0;

public:
  Duration(int32_t s, uint32_t ns) : ns_(static_cast<int64_t>(s) * 1000000000LL + ns) {}
  explicit Duration(std::chrono::nanoseconds n) : ns_(n.count()) {}
  static Duration from_nanoseconds(int64_t n) { return Duration(std::chrono::nanoseconds(n)); }
  static Duration from_seconds(double s) { return from_nanoseconds(static_cast<int64_t>(s * 1e9)); }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration d;
    d.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    d.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return d;
  }
  Duration operator+(const Duration & o) const { return from_nanoseconds(ns_ + o.ns_); }
  Duration operator-(const Duration & o) const { return from_nanoseconds(ns_ - o.ns_); }
  bool operator==(const Duration & o) const { return ns_ == o.ns_; }
  bool operator<(const Duration & o) const { return ns_ < o.ns_; }
};
class Time
{
  int64_t ns_ = 0;
  int type_ = RCL_SYSTEM_TIME;

public:
  explicit Time(int64_t n = 0, int t = RCL_SYSTEM_TIME) : ns_(n), type_(t) {}
  Time(int32_t s, uint32_t n, int t = RCL_SYSTEM_TIME) : ns_(static_cast<int64_t>(s) * 1000000000LL + n), type_(t)
  {
    if (s < 0) throw std::runtime_error("cannot store a negative time point in rclcpp::Time");
  }
  Time(const builtin_interfaces::msg::Time & t, int type = RCL_ROS_TIME) : Time(t.sec, t.nanosec, type) {}
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    int64_t s = ns_ / 1000000000LL, r = ns_ % 1000000000LL;
    if (r < 0) { r += 1000000000LL; --s; }
    t.sec = static_cast<int32_t>(s);
    t.nanosec = static_cast<uint32_t>(r);
    return t;
  }
  int64_t nanoseconds() const { return ns_; }
  double seconds() const { return std::chrono::duration<double>(std::chrono::nanoseconds(ns_)).count(); }
  Time operator+(const Duration & d) const { return Time(ns_ + d.nanoseconds(), type_); }
  Time operator-(const Duration & d) const { return Time(ns_ - d.nanoseconds(), type_); }
  Duration operator-(const Time & o) const
  {
    if (type_ != o.type_) throw std::runtime_error("can't subtract times with different time sources");
    return Duration::from_nanoseconds(ns_ - o.ns_);
  }
  Time & operator+=(const Duration & d) { ns_ += d.nanoseconds(); return *this; }
  Time & operator-=(const Duration & d) { ns_ -= d.nanoseconds(); return *this; }
  bool operator==(const Time & o) const { chk(o); return ns_ == o.ns_; }
  bool operator!=(const Time & o) const { return not(*this == o); }
  bool operator<(const Time & o) const { chk(o); return ns_ < o.ns_; }
  bool operator>(const Time & o) const { chk(o); return ns_ > o.ns_; }
  bool operator<=(const Time & o) const { chk(o); return ns_ <= o.ns_; }
  bool operator>=(const Time & o) const { chk(o); return ns_ >= o.ns_; }
  int get_clock_type() const { return type_; }

private:
  void chk(const Time & o) const
  {
    if (type_ != o.type_) throw std::runtime_error("can't compare times with different time sources");
  }
};
inline Time operator+(const Duration & d, const Time & t) { return t + d; }
class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  Time value{static_cast<int64_t>(0), RCL_ROS_TIME};
  Time now() { return value; }
};
class Logger
{
};
inline Logger get_logger(const std::string &) { return {}; }
bool ok();  // defined by the harnesses that need it
}  // namespace rclcpp
#define SX_LOG_(...) do { } while (0)
#define RCLCPP_INFO(...) SX_LOG_()
#define RCLCPP_WARN(...) SX_LOG_()
#define RCLCPP_ERROR(...) SX_LOG_()
#define RCLCPP_DEBUG(...) SX_LOG_()
#define RCLCPP_INFO_STREAM(...) SX_LOG_()
#define RCLCPP_WARN_STREAM(...) SX_LOG_()
#define RCLCPP_ERROR_STREAM(...) SX_LOG_()
#define RCLCPP_DEBUG_STREAM(...) SX_LOG_()
#define RCLCPP_ERROR_ONCE(...) SX_LOG_()
#define RCLCPP_INFO_ONCE(...) SX_LOG_()
#define RCLCPP_WARN_ONCE(...) SX_LOG_()
