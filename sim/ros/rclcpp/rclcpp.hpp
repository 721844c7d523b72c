// A simulated rclcpp: the API surface the repository's nodes use, implemented
// on the deterministic simulator in sim/core. Nothing here is random or timed:
// every decision is taken by sim::World.
#ifndef SIM_RCLCPP_HPP_
#define SIM_RCLCPP_HPP_

#include <array>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>

#include <builtin_interfaces/msg/duration.hpp>
#include <builtin_interfaces/msg/time.hpp>

#include "../../core/sim.hpp"

// ------------------------------------------------------------------ QoS
enum rmw_qos_history_policy_t {RMW_QOS_POLICY_HISTORY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, RMW_QOS_POLICY_HISTORY_KEEP_ALL};
enum rmw_qos_reliability_policy_t {RMW_QOS_POLICY_RELIABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_RELIABILITY_RELIABLE, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT};
enum rmw_qos_durability_policy_t {RMW_QOS_POLICY_DURABILITY_SYSTEM_DEFAULT,
  RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL, RMW_QOS_POLICY_DURABILITY_VOLATILE};
struct rmw_qos_profile_t
{
  rmw_qos_history_policy_t history = RMW_QOS_POLICY_HISTORY_KEEP_LAST;
  size_t depth = 10;
  rmw_qos_reliability_policy_t reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE;
  rmw_qos_durability_policy_t durability = RMW_QOS_POLICY_DURABILITY_VOLATILE;
};
static const rmw_qos_profile_t rmw_qos_profile_default = {};
static const rmw_qos_profile_t rmw_qos_profile_sensor_data = {
  RMW_QOS_POLICY_HISTORY_KEEP_LAST, 5, RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT,
  RMW_QOS_POLICY_DURABILITY_VOLATILE};

enum rcl_clock_type_t {RCL_CLOCK_UNINITIALIZED = 0, RCL_ROS_TIME, RCL_SYSTEM_TIME, RCL_STEADY_TIME};

namespace rclcpp
{

using sim::i64;

struct QoSInitialization
{
  rmw_qos_history_policy_t history_policy;
  size_t depth;
  bool print_depth_warning = true;
  static QoSInitialization from_rmw(const rmw_qos_profile_t & p) {return {p.history, p.depth};}
};
struct KeepAll : QoSInitialization
{
  KeepAll() : QoSInitialization{RMW_QOS_POLICY_HISTORY_KEEP_ALL, 0} {}
};
struct KeepLast : QoSInitialization
{
  explicit KeepLast(size_t d) : QoSInitialization{RMW_QOS_POLICY_HISTORY_KEEP_LAST, d} {}
};
enum class ReliabilityPolicy {BestEffort, Reliable, SystemDefault, Unknown};
enum class DurabilityPolicy {Volatile, TransientLocal, SystemDefault, Unknown};
enum class HistoryPolicy {KeepLast, KeepAll, SystemDefault, Unknown};

class QoS
{
public:
  explicit QoS(const QoSInitialization & i, const rmw_qos_profile_t & p = rmw_qos_profile_default)
  : p_(p)
  {
    p_.history = i.history_policy;
    p_.depth = i.depth;
  }
  QoS(size_t depth) {p_.depth = depth;}      // NOLINT implicit as in rclcpp
  QoS & keep_last(size_t d) {p_.history = RMW_QOS_POLICY_HISTORY_KEEP_LAST; p_.depth = d; return *this;}
  QoS & keep_all() {p_.history = RMW_QOS_POLICY_HISTORY_KEEP_ALL; p_.depth = 0; return *this;}
  QoS & reliable() {p_.reliability = RMW_QOS_POLICY_RELIABILITY_RELIABLE; return *this;}
  QoS & best_effort() {p_.reliability = RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT; return *this;}
  QoS & transient_local() {p_.durability = RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL; return *this;}
  QoS & durability_volatile() {p_.durability = RMW_QOS_POLICY_DURABILITY_VOLATILE; return *this;}
  QoS & reliability(ReliabilityPolicy r)
  {
    return r == ReliabilityPolicy::BestEffort ? best_effort() : reliable();
  }
  QoS & durability(DurabilityPolicy d)
  {
    return d == DurabilityPolicy::TransientLocal ? transient_local() : durability_volatile();
  }
  QoS & history(HistoryPolicy h)
  {
    p_.history = h == HistoryPolicy::KeepAll ? RMW_QOS_POLICY_HISTORY_KEEP_ALL :
      RMW_QOS_POLICY_HISTORY_KEEP_LAST;
    return *this;
  }
  const rmw_qos_profile_t & get_rmw_qos_profile() const {return p_;}
  rmw_qos_profile_t & get_rmw_qos_profile() {return p_;}
  size_t depth() const {return p_.depth;}
  bool is_reliable() const {return p_.reliability != RMW_QOS_POLICY_RELIABILITY_BEST_EFFORT;}
  bool is_transient() const {return p_.durability == RMW_QOS_POLICY_DURABILITY_TRANSIENT_LOCAL;}
  bool is_keep_all() const {return p_.history == RMW_QOS_POLICY_HISTORY_KEEP_ALL;}

private:
  rmw_qos_profile_t p_;
};

class SensorDataQoS : public QoS
{
public:
  SensorDataQoS() : QoS(QoSInitialization::from_rmw(rmw_qos_profile_sensor_data),
      rmw_qos_profile_sensor_data) {}
};
class SystemDefaultsQoS : public QoS
{
public:
  SystemDefaultsQoS() : QoS(10) {}
};
class ServicesQoS : public QoS
{
public:
  ServicesQoS() : QoS(10) {}
};

// ------------------------------------------------------------------ time
class Duration
{
public:
  Duration(int32_t s, uint32_t ns) : ns_(static_cast<i64>(s) * 1000000000LL + ns) {}
  explicit Duration(i64 ns) : ns_(ns) {}
  Duration(std::chrono::nanoseconds d) : ns_(d.count()) {}                 // NOLINT
  template<class R, class P>
  Duration(const std::chrono::duration<R, P> & d)                          // NOLINT
  : ns_(std::chrono::duration_cast<std::chrono::nanoseconds>(d).count()) {}
  Duration(const builtin_interfaces::msg::Duration & d)                    // NOLINT
  : ns_(static_cast<i64>(d.sec) * 1000000000LL + d.nanosec) {}
  static Duration from_seconds(double s) {return Duration(static_cast<i64>(s * 1e9));}
  static Duration from_nanoseconds(i64 n) {return Duration(n);}
  static Duration max() {return Duration(static_cast<i64>(INT64_MAX));}
  Duration() : ns_(0) {}
  Duration operator-() const {return Duration(-ns_);}
  Duration & operator+=(const Duration & o) {ns_ += o.ns_; return *this;}
  Duration & operator-=(const Duration & o) {ns_ -= o.ns_; return *this;}
  Duration & operator*=(double s) {ns_ = static_cast<i64>(ns_ * s); return *this;}
  i64 nanoseconds() const {return ns_;}
  double seconds() const {return static_cast<double>(ns_) / 1e9;}
  Duration operator+(const Duration & o) const {return Duration(ns_ + o.ns_);}
  Duration operator-(const Duration & o) const {return Duration(ns_ - o.ns_);}
  Duration operator*(double s) const {return Duration(static_cast<i64>(ns_ * s));}
  bool operator<(const Duration & o) const {return ns_ < o.ns_;}
  bool operator>(const Duration & o) const {return ns_ > o.ns_;}
  bool operator<=(const Duration & o) const {return ns_ <= o.ns_;}
  bool operator>=(const Duration & o) const {return ns_ >= o.ns_;}
  bool operator==(const Duration & o) const {return ns_ == o.ns_;}
  bool operator!=(const Duration & o) const {return ns_ != o.ns_;}
  template<class D>
  D to_chrono() const {return std::chrono::duration_cast<D>(std::chrono::nanoseconds(ns_));}
  operator builtin_interfaces::msg::Duration() const
  {
    builtin_interfaces::msg::Duration d;
    d.sec = static_cast<int32_t>(ns_ / 1000000000LL);
    d.nanosec = static_cast<uint32_t>(ns_ % 1000000000LL);
    return d;
  }

private:
  i64 ns_;
};

class Time
{
public:
  Time(int32_t s, uint32_t ns, rcl_clock_type_t c = RCL_SYSTEM_TIME)
  : ns_(static_cast<i64>(s) * 1000000000LL + ns), c_(c)
  {
    if (s < 0) {
      throw std::runtime_error("cannot store a negative time point in rclcpp::Time");
    }
  }
  explicit Time(i64 ns = 0, rcl_clock_type_t c = RCL_SYSTEM_TIME) : ns_(ns), c_(c) {}
  Time(const builtin_interfaces::msg::Time & t, rcl_clock_type_t c = RCL_ROS_TIME)   // NOLINT
  : ns_(static_cast<i64>(t.sec) * 1000000000LL + t.nanosec), c_(c)
  {
    if (t.sec < 0) {
      throw std::runtime_error("cannot store a negative time point in rclcpp::Time");
    }
  }
  Time(const Time &) = default;
  Time & operator=(const Time &) = default;
  Time & operator=(const builtin_interfaces::msg::Time & t)
  {
    *this = Time(t);
    return *this;
  }
  operator builtin_interfaces::msg::Time() const
  {
    builtin_interfaces::msg::Time t;
    i64 s = ns_ / 1000000000LL;
    i64 r = ns_ % 1000000000LL;
    if (r < 0) {
      r += 1000000000LL;
      --s;
    }
    t.sec = static_cast<int32_t>(s);
    t.nanosec = static_cast<uint32_t>(r);
    return t;
  }
  i64 nanoseconds() const {return ns_;}
  double seconds() const {return static_cast<double>(ns_) / 1e9;}
  rcl_clock_type_t get_clock_type() const {return c_;}
  static Time max() {return Time(INT64_MAX);}
  bool operator==(const Time & o) const {same(o); return ns_ == o.ns_;}
  bool operator!=(const Time & o) const {return !(*this == o);}
  bool operator<(const Time & o) const {same(o); return ns_ < o.ns_;}
  bool operator<=(const Time & o) const {same(o); return ns_ <= o.ns_;}
  bool operator>(const Time & o) const {same(o); return ns_ > o.ns_;}
  bool operator>=(const Time & o) const {same(o); return ns_ >= o.ns_;}
  Duration operator-(const Time & o) const
  {
    if (c_ != o.c_) {
      throw std::runtime_error("can't subtract times with different time sources");
    }
    i64 r;
    if (__builtin_sub_overflow(ns_, o.ns_, &r)) {
      throw std::overflow_error("time subtraction leads to int64_t overflow");
    }
    return Duration(r);
  }
  Time operator+(const Duration & d) const {return Time(ns_ + d.nanoseconds(), c_);}
  Time operator-(const Duration & d) const {return Time(ns_ - d.nanoseconds(), c_);}
  Time & operator+=(const Duration & d) {ns_ += d.nanoseconds(); return *this;}
  Time & operator-=(const Duration & d) {ns_ -= d.nanoseconds(); return *this;}

private:
  void same(const Time & o) const
  {
    if (c_ != o.c_) {
      throw std::runtime_error("can't compare times with different time sources");
    }
  }
  i64 ns_;
  rcl_clock_type_t c_;
};

inline Time operator+(const Duration & d, const Time & t) {return t + d;}

class Clock
{
public:
  using SharedPtr = std::shared_ptr<Clock>;
  using ConstSharedPtr = std::shared_ptr<const Clock>;
  explicit Clock(rcl_clock_type_t t = RCL_SYSTEM_TIME, sim::Process * p = nullptr)
  : type_(t), proc_(p) {}
  Time now() const;
  rcl_clock_type_t get_clock_type() const noexcept {return type_;}
  bool ros_time_is_active() const {return false;}
  bool sleep_for(Duration d);
  bool sleep_until(Time t) {return sleep_for(t - now());}

private:
  rcl_clock_type_t type_;
  sim::Process * proc_;
};

// ------------------------------------------------------------------ logging
class Logger
{
public:
  explicit Logger(const std::string & n) : name_(n) {}
  const char * get_name() const {return name_.c_str();}
  Logger get_child(const std::string & s) const {return Logger(name_ + "." + s);}

private:
  std::string name_;
};
inline Logger get_logger(const std::string & n) {return Logger(n);}

// How many arguments a printf format consumes; -1 if it writes (%n).
inline int format_arguments(const char * f)
{
  int n = 0;
  for (; *f; ++f) {
    if (*f != '%') {
      continue;
    }
    ++f;
    if (*f == '%') {
      continue;
    }
    while (*f && !std::isalpha(static_cast<unsigned char>(*f))) {
      if (*f == '*') {
        ++n;
      }
      if (*f == '%') {
        break;
      }
      ++f;
    }
    while (*f == 'h' || *f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'L') {
      ++f;
    }
    if (!*f) {
      return n + 1;
    }
    if (*f == 'n') {
      return -1;
    }
    ++n;
  }
  return n;
}

template<typename ... A>
void sim_log(int level, const Logger & l, const char * f, A... a)
{
  sim::World * w = sim::W();
  const int need = format_arguments(f);
  if (need < 0 || need > static_cast<int>(sizeof...(A))) {
    // undefined behaviour in the real system: a read through a missing argument
    if (w) {
      w->fail("format-string", std::string("untrusted text used as a printf format: ") + f);
    }
    return;
  }
  char buf[2048];
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wformat-security"
#pragma GCC diagnostic ignored "-Wformat-nonliteral"
#pragma GCC diagnostic ignored "-Wformat"
  snprintf(buf, sizeof(buf), f, a ...);
#pragma GCC diagnostic pop
  if (w) {
    w->log(level, l.get_name(), buf);
  }
}

bool sim_throttle(const char * site, i64 ms);     // true: log it
bool sim_once(const char * site);

#define SIM_STR2(x) #x
#define SIM_STR(x) SIM_STR2(x)
#define SIM_SITE __FILE__ ":" SIM_STR(__LINE__)
#define SIM_LOGF(level, logger, ...) ::rclcpp::sim_log(level, (logger), __VA_ARGS__)
#define SIM_LOGS(level, logger, stream_arg) \
  do {std::stringstream sim_ss_; sim_ss_ << stream_arg; \
    ::rclcpp::sim_log(level, (logger), "%s", sim_ss_.str().c_str());} while (0)
#define SIM_LOGT(level, logger, clock, ms, ...) \
  do {(void)(clock); if (::rclcpp::sim_throttle(SIM_SITE, (ms))) { \
      ::rclcpp::sim_log(level, (logger), __VA_ARGS__);}} while (0)
#define SIM_LOGST(level, logger, clock, ms, s) \
  do {(void)(clock); if (::rclcpp::sim_throttle(SIM_SITE, (ms))) {SIM_LOGS(level, logger, s);}} while (0)
#define SIM_LOGO(level, logger, ...) \
  do {if (::rclcpp::sim_once(SIM_SITE)) {::rclcpp::sim_log(level, (logger), __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG(l, ...) SIM_LOGF(0, l, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM(l, s) SIM_LOGS(0, l, s)
#define RCLCPP_DEBUG_THROTTLE(l, c, ms, ...) SIM_LOGT(0, l, c, ms, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM_THROTTLE(l, c, ms, s) SIM_LOGST(0, l, c, ms, s)
#define RCLCPP_DEBUG_ONCE(l, ...) SIM_LOGO(0, l, __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM_ONCE(l, s) \
  do {if (::rclcpp::sim_once(SIM_SITE)) {SIM_LOGS(0, l, s);}} while (0)
#define RCLCPP_DEBUG_EXPRESSION(l, e, ...) \
  do {if (e) {SIM_LOGF(0, l, __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG_FUNCTION(l, f, ...) RCLCPP_DEBUG_EXPRESSION(l, (*(f))(), __VA_ARGS__)
#define RCLCPP_DEBUG_STREAM_EXPRESSION(l, e, s) \
  do {if (e) {SIM_LOGS(0, l, s);}} while (0)
#define RCLCPP_DEBUG_SKIPFIRST(l, ...) \
  do {if (!::rclcpp::sim_once(SIM_SITE)) {SIM_LOGF(0, l, __VA_ARGS__);}} while (0)
#define RCLCPP_DEBUG_SKIPFIRST_THROTTLE(l, c, ms, ...) SIM_LOGT(0, l, c, ms, __VA_ARGS__)
#define RCLCPP_INFO(l, ...) SIM_LOGF(1, l, __VA_ARGS__)
#define RCLCPP_INFO_STREAM(l, s) SIM_LOGS(1, l, s)
#define RCLCPP_INFO_THROTTLE(l, c, ms, ...) SIM_LOGT(1, l, c, ms, __VA_ARGS__)
#define RCLCPP_INFO_STREAM_THROTTLE(l, c, ms, s) SIM_LOGST(1, l, c, ms, s)
#define RCLCPP_INFO_ONCE(l, ...) SIM_LOGO(1, l, __VA_ARGS__)
#define RCLCPP_INFO_STREAM_ONCE(l, s) \
  do {if (::rclcpp::sim_once(SIM_SITE)) {SIM_LOGS(1, l, s);}} while (0)
#define RCLCPP_INFO_EXPRESSION(l, e, ...) \
  do {if (e) {SIM_LOGF(1, l, __VA_ARGS__);}} while (0)
#define RCLCPP_INFO_FUNCTION(l, f, ...) RCLCPP_INFO_EXPRESSION(l, (*(f))(), __VA_ARGS__)
#define RCLCPP_INFO_STREAM_EXPRESSION(l, e, s) \
  do {if (e) {SIM_LOGS(1, l, s);}} while (0)
#define RCLCPP_INFO_SKIPFIRST(l, ...) \
  do {if (!::rclcpp::sim_once(SIM_SITE)) {SIM_LOGF(1, l, __VA_ARGS__);}} while (0)
#define RCLCPP_INFO_SKIPFIRST_THROTTLE(l, c, ms, ...) SIM_LOGT(1, l, c, ms, __VA_ARGS__)
#define RCLCPP_WARN(l, ...) SIM_LOGF(2, l, __VA_ARGS__)
#define RCLCPP_WARN_STREAM(l, s) SIM_LOGS(2, l, s)
#define RCLCPP_WARN_THROTTLE(l, c, ms, ...) SIM_LOGT(2, l, c, ms, __VA_ARGS__)
#define RCLCPP_WARN_STREAM_THROTTLE(l, c, ms, s) SIM_LOGST(2, l, c, ms, s)
#define RCLCPP_WARN_ONCE(l, ...) SIM_LOGO(2, l, __VA_ARGS__)
#define RCLCPP_WARN_STREAM_ONCE(l, s) \
  do {if (::rclcpp::sim_once(SIM_SITE)) {SIM_LOGS(2, l, s);}} while (0)
#define RCLCPP_WARN_EXPRESSION(l, e, ...) \
  do {if (e) {SIM_LOGF(2, l, __VA_ARGS__);}} while (0)
#define RCLCPP_WARN_FUNCTION(l, f, ...) RCLCPP_WARN_EXPRESSION(l, (*(f))(), __VA_ARGS__)
#define RCLCPP_WARN_STREAM_EXPRESSION(l, e, s) \
  do {if (e) {SIM_LOGS(2, l, s);}} while (0)
#define RCLCPP_WARN_SKIPFIRST(l, ...) \
  do {if (!::rclcpp::sim_once(SIM_SITE)) {SIM_LOGF(2, l, __VA_ARGS__);}} while (0)
#define RCLCPP_WARN_SKIPFIRST_THROTTLE(l, c, ms, ...) SIM_LOGT(2, l, c, ms, __VA_ARGS__)
#define RCLCPP_ERROR(l, ...) SIM_LOGF(3, l, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM(l, s) SIM_LOGS(3, l, s)
#define RCLCPP_ERROR_THROTTLE(l, c, ms, ...) SIM_LOGT(3, l, c, ms, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM_THROTTLE(l, c, ms, s) SIM_LOGST(3, l, c, ms, s)
#define RCLCPP_ERROR_ONCE(l, ...) SIM_LOGO(3, l, __VA_ARGS__)
#define RCLCPP_ERROR_STREAM_ONCE(l, s) \
  do {if (::rclcpp::sim_once(SIM_SITE)) {SIM_LOGS(3, l, s);}} while (0)
#define RCLCPP_ERROR_EXPRESSION(l, e, ...) \
  do {if (e) {SIM_LOGF(3, l, __VA_ARGS__);}} while (0)
#define RCLCPP_ERROR_FUNCTION(l, f, ...) RCLCPP_ERROR_EXPRESSION(l, (*(f))(), __VA_ARGS__)
#define RCLCPP_ERROR_STREAM_EXPRESSION(l, e, s) \
  do {if (e) {SIM_LOGS(3, l, s);}} while (0)
#define RCLCPP_ERROR_SKIPFIRST(l, ...) \
  do {if (!::rclcpp::sim_once(SIM_SITE)) {SIM_LOGF(3, l, __VA_ARGS__);}} while (0)
#define RCLCPP_ERROR_SKIPFIRST_THROTTLE(l, c, ms, ...) SIM_LOGT(3, l, c, ms, __VA_ARGS__)
#define RCLCPP_FATAL(l, ...) SIM_LOGF(4, l, __VA_ARGS__)
#define RCLCPP_FATAL_STREAM(l, s) SIM_LOGS(4, l, s)
#define RCLCPP_FATAL_THROTTLE(l, c, ms, ...) SIM_LOGT(4, l, c, ms, __VA_ARGS__)
#define RCLCPP_FATAL_STREAM_THROTTLE(l, c, ms, s) SIM_LOGST(4, l, c, ms, s)
#define RCLCPP_FATAL_ONCE(l, ...) SIM_LOGO(4, l, __VA_ARGS__)
#define RCLCPP_FATAL_STREAM_ONCE(l, s) \
  do {if (::rclcpp::sim_once(SIM_SITE)) {SIM_LOGS(4, l, s);}} while (0)
#define RCLCPP_FATAL_EXPRESSION(l, e, ...) \
  do {if (e) {SIM_LOGF(4, l, __VA_ARGS__);}} while (0)
#define RCLCPP_FATAL_FUNCTION(l, f, ...) RCLCPP_FATAL_EXPRESSION(l, (*(f))(), __VA_ARGS__)
#define RCLCPP_FATAL_STREAM_EXPRESSION(l, e, s) \
  do {if (e) {SIM_LOGS(4, l, s);}} while (0)
#define RCLCPP_FATAL_SKIPFIRST(l, ...) \
  do {if (!::rclcpp::sim_once(SIM_SITE)) {SIM_LOGF(4, l, __VA_ARGS__);}} while (0)
#define RCLCPP_FATAL_SKIPFIRST_THROTTLE(l, c, ms, ...) SIM_LOGT(4, l, c, ms, __VA_ARGS__)

// ------------------------------------------------------------------ entities
enum class CallbackGroupType {MutuallyExclusive, Reentrant};
class CallbackGroup
{
public:
  using SharedPtr = std::shared_ptr<CallbackGroup>;
  using WeakPtr = std::weak_ptr<CallbackGroup>;
  explicit CallbackGroup(CallbackGroupType t) : type(t) {}
  CallbackGroupType type;
  int running = 0;
  bool can_run() const {return type == CallbackGroupType::Reentrant || running == 0;}
};

class Node;

using AnyMsg = std::shared_ptr<const void>;

struct PubBase
{
  sim::Process * proc = nullptr;
  std::string topic;
  std::type_index type = typeid(void);
  QoS qos = QoS(10);
  std::deque<AnyMsg> history;        // for transient_local late joiners
  bool alive = true;
  sim::u64 n = 0;
  virtual ~PubBase() {}
};

struct SubBase
{
  using SharedPtr = std::shared_ptr<SubBase>;
  sim::Process * proc = nullptr;
  Node * node = nullptr;
  std::string topic;
  std::type_index type = typeid(void);
  QoS qos = QoS(10);
  CallbackGroup::SharedPtr group;
  std::deque<AnyMsg> queue;
  bool alive = true;
  bool independent = false;          // served by a thread of its own
  sim::u64 n_delivered = 0, n_taken = 0, n_overflow = 0;
  std::shared_ptr<bool> handle = std::make_shared<bool>(true);
  std::function<AnyMsg(const AnyMsg &)> clone;
  std::function<void (const AnyMsg &)> callback;
  virtual ~SubBase() {}
};

struct TimerBase
{
  using SharedPtr = std::shared_ptr<TimerBase>;
  using WeakPtr = std::weak_ptr<TimerBase>;
  sim::Process * proc = nullptr;
  i64 period = 0;
  i64 next = 0;                      // nominal, world time
  i64 due = 0;                       // nominal plus injected jitter
  bool canceled = false;
  bool alive = true;
  CallbackGroup::SharedPtr group;
  std::function<void ()> callback;
  sim::u64 fired = 0;
  void cancel() {canceled = true;}
  void reset();
  bool is_canceled() const {return canceled;}
  virtual ~TimerBase() {}
};
using WallTimerBase = TimerBase;

// ------------------------------------------------------------------ middleware
struct Link
{
  std::string topic, src, dst;
  sim::u64 n;            // how many messages went over this link before
  bool reliable;
};

struct Middleware
{
  struct Topic
  {
    std::vector<SubBase *> subs;
    std::vector<PubBase *> pubs;
  };
  std::map<std::string, Topic> topics;
  std::vector<Node *> nodes;
  std::map<std::string, sim::u64> link_n;
  std::map<std::string, i64> link_last;
  std::set<std::string> once;
  std::map<std::string, i64> throttle;
  std::map<sim::Process *, std::vector<sim::Fiber *>> waiting;
  std::vector<std::shared_ptr<PubBase>> external;

  // --- policy, set by checks
  // The delays with which a message is delivered over a link (none: lost).
  std::function<std::vector<i64>(const Link &, const AnyMsg &)> network;
  std::function<AnyMsg(const Link &, const AnyMsg &)> corrupt;
  std::function<i64(sim::Process *)> timer_jitter;
  std::function<i64()> now_tick;       // how far time moves on with each clock reading
  // simulated execution time before / after a callback
  std::function<std::pair<i64, i64>(sim::Process *, const std::string &)> exec_time;
  // --- observation, for oracles
  std::function<void (PubBase &, const AnyMsg &)> on_publish;
  std::function<void (SubBase &, const AnyMsg &)> on_take;
  std::function<void (SubBase &, const AnyMsg &)> on_done;
  std::function<void (TimerBase &)> on_timer;
  std::function<void (TimerBase &)> on_timer_done;
  std::function<void (SubBase &, const AnyMsg &)> on_overflow;

  void publish(PubBase & p, const AnyMsg & m);
  void deliver(SubBase * s, const AnyMsg & m);
  void add_sub(SubBase * s);
  void add_pub(PubBase * p);
  void remove_sub(SubBase * s);
  void remove_pub(PubBase * p);
  void send(PubBase & p, SubBase * s, const AnyMsg & m);
  void wake(sim::Process * p);
  void arm(const TimerBase::SharedPtr & t);
  bool compatible(const PubBase & p, const SubBase & s) const;
  int n_threads = 3;

  // a publisher outside every simulated process
  template<typename M>
  void inject(
    const std::string & topic, const M & msg, const std::string & src = "world",
    const QoS & qos = QoS(10).reliable());
  template<typename M>
  std::shared_ptr<PubBase> external_pub(
    const std::string & topic, const std::string & src, const QoS & qos);
  std::map<std::string, std::shared_ptr<PubBase>> ext;
  std::map<std::string, std::unique_ptr<sim::Process>> ext_proc;
};

Middleware & mw();      // the current world's middleware

template<typename M>
std::shared_ptr<PubBase> Middleware::external_pub(
  const std::string & topic, const std::string & src, const QoS & qos)
{
  auto & p = ext[topic + "|" + src];
  if (!p) {
    p = std::make_shared<PubBase>();
    auto & q = ext_proc[src];
    if (!q) {
      q = std::make_unique<sim::Process>();
      q->name = src;
    }
    p->proc = q.get();
    p->topic = topic;
    p->type = typeid(M);
    p->qos = qos;
    add_pub(p.get());
  }
  return p;
}

template<typename M>
void Middleware::inject(
  const std::string & topic, const M & msg, const std::string & src, const QoS & qos)
{
  publish(*external_pub<M>(topic, src, qos), std::make_shared<const M>(msg));
}

template<typename M>
const M & as(const AnyMsg & m) {return *static_cast<const M *>(m.get());}

// ------------------------------------------------------------------ options
class Context
{
public:
  using SharedPtr = std::shared_ptr<Context>;
};
struct Parameter
{
  Parameter() {}
  template<typename T>
  Parameter(const std::string & n, const T & v) : name(n) {std::ostringstream s; s << v; text = s.str();}
  std::string name, text;
  double as_double() const {return std::stod(text);}
  int64_t as_int() const {return std::stoll(text);}
  bool as_bool() const {return text == "1" || text == "true";}
  std::string as_string() const {return text;}
  template<typename T>
  T get_value() const;
};
class NodeOptions
{
public:
  NodeOptions & use_intra_process_comms(bool) {return *this;}
  NodeOptions & allow_undeclared_parameters(bool) {return *this;}
  NodeOptions & automatically_declare_parameters_from_overrides(bool) {return *this;}
  NodeOptions & arguments(const std::vector<std::string> &) {return *this;}
  NodeOptions & parameter_overrides(const std::vector<Parameter> & p) {overrides = p; return *this;}
  NodeOptions & append_parameter_override(const std::string & n, const std::string & v)
  {
    overrides.push_back(Parameter(n, v));
    return *this;
  }
  std::vector<Parameter> overrides;
};
struct PublisherOptions
{
  CallbackGroup::SharedPtr callback_group;
};
struct SubscriptionOptions
{
  CallbackGroup::SharedPtr callback_group;
};
template<typename A>
struct PublisherOptionsWithAllocator : PublisherOptions {};
struct ExecutorOptions {};
struct MessageInfo {};

template<typename M>
class Publisher : public PubBase
{
public:
  using SharedPtr = std::shared_ptr<Publisher<M>>;
  using ConstSharedPtr = std::shared_ptr<const Publisher<M>>;
  ~Publisher() override {if (alive) {mw().remove_pub(this);}}
  void publish(const M & m) const
  {
    mw().publish(*const_cast<Publisher<M> *>(this), std::make_shared<const M>(m));
  }
  void publish(std::unique_ptr<M> m) const {publish(*m);}
  size_t get_intra_process_subscription_count() const {return 0;}
  size_t get_subscription_count() const
  {
    size_t n = 0;
    for (auto * s : mw().topics[topic].subs) {
      n += mw().compatible(*this, *s) ? 1 : 0;
    }
    return n;
  }
  const char * get_topic_name() const {return topic.c_str();}
  QoS get_actual_qos() const {return qos;}
};

class SubscriptionBase : public SubBase
{
public:
  using SharedPtr = std::shared_ptr<SubscriptionBase>;
};

template<typename M>
class Subscription : public SubscriptionBase
{
public:
  using SharedPtr = std::shared_ptr<Subscription<M>>;
  using ConstSharedPtr = std::shared_ptr<const Subscription<M>>;
  ~Subscription() override {if (alive) {mw().remove_sub(this);}}
  const char * get_topic_name() const {return topic.c_str();}
  size_t get_publisher_count() const {return mw().topics[topic].pubs.size();}
  QoS get_actual_qos() const {return qos;}
};

template<typename M, typename F>
std::function<void (const AnyMsg &)> adapt_callback(F cb)
{
  if constexpr (std::is_invocable_v<F, std::shared_ptr<M>>) {
    return [cb](const AnyMsg & m) mutable {
             cb(std::static_pointer_cast<M>(std::const_pointer_cast<void>(m)));
           };
  } else if constexpr (std::is_invocable_v<F, const M &>) {
    return [cb](const AnyMsg & m) mutable {cb(*static_cast<const M *>(m.get()));};
  } else if constexpr (std::is_invocable_v<F, std::unique_ptr<M>>) {
    return [cb](const AnyMsg & m) mutable {
             cb(std::make_unique<M>(*static_cast<const M *>(m.get())));
           };
  } else if constexpr (std::is_invocable_v<F, std::shared_ptr<M>, const MessageInfo &>) {
    return [cb](const AnyMsg & m) mutable {
             cb(std::static_pointer_cast<M>(std::const_pointer_cast<void>(m)), MessageInfo());
           };
  } else {
    return [cb](const AnyMsg & m) mutable {cb(*static_cast<const M *>(m.get()), MessageInfo());};
  }
}

template<typename T>
T parse_param(const std::string & s)
{
  if constexpr (std::is_same_v<T, std::string>) {
    return s;
  } else if constexpr (std::is_same_v<T, bool>) {
    return s == "true" || s == "1";
  } else if constexpr (std::is_integral_v<T>) {
    return static_cast<T>(std::stoll(s));
  } else {
    return static_cast<T>(std::stod(s));
  }
}
template<typename T>
std::string print_param(const T & v)
{
  if constexpr (std::is_same_v<T, std::string>) {
    return v;
  } else if constexpr (std::is_same_v<T, bool>) {
    return v ? "true" : "false";
  } else if constexpr (std::is_integral_v<T>) {
    return std::to_string(v);
  } else {
    return sim::fmt("%.17g", static_cast<double>(v));
  }
}
template<typename T>
T Parameter::get_value() const {return parse_param<T>(text);}

// ------------------------------------------------------------------ node
class Node : public std::enable_shared_from_this<Node>
{
public:
  using SharedPtr = std::shared_ptr<Node>;
  using WeakPtr = std::weak_ptr<Node>;
  using UniquePtr = std::unique_ptr<Node>;
  explicit Node(const std::string & name, const NodeOptions & options = NodeOptions());
  Node(const std::string & name, const std::string & ns, const NodeOptions & options = NodeOptions());
  virtual ~Node();
  Node(const Node &) = delete;
  Node & operator=(const Node &) = delete;

  const char * get_name() const {return name_.c_str();}
  const char * get_namespace() const {return ns_.c_str();}
  const char * get_fully_qualified_name() const {return fqn_.c_str();}
  Logger get_logger() const {return Logger(name_);}
  Clock::SharedPtr get_clock() {return clock_;}
  Clock::ConstSharedPtr get_clock() const {return clock_;}
  Time now() const {return clock_->now();}
  Node::SharedPtr get_node_base_interface() {return shared_from_this();}
  const NodeOptions & get_node_options() const {return options_;}
  size_t count_publishers(const std::string & t) const {return mw().topics[resolve(t)].pubs.size();}
  size_t count_subscribers(const std::string & t) const {return mw().topics[resolve(t)].subs.size();}

  template<typename M, typename Q = QoS>
  typename Publisher<M>::SharedPtr create_publisher(
    const std::string & topic, const Q & qos, const PublisherOptions & = PublisherOptions())
  {
    auto p = std::make_shared<Publisher<M>>();
    p->proc = proc_;
    p->topic = resolve(topic);
    p->type = typeid(M);
    p->qos = QoS(qos);
    mw().add_pub(p.get());
    return p;
  }

  template<typename M, typename F, typename Q = QoS>
  typename Subscription<M>::SharedPtr create_subscription(
    const std::string & topic, const Q & qos, F && cb,
    const SubscriptionOptions & opt = SubscriptionOptions())
  {
    auto s = std::make_shared<Subscription<M>>();
    s->proc = proc_;
    s->node = this;
    s->topic = resolve(topic);
    s->type = typeid(M);
    s->qos = QoS(qos);
    s->group = opt.callback_group ? opt.callback_group : default_group_;
    s->clone = [](const AnyMsg & m) -> AnyMsg {
        return std::make_shared<M>(*static_cast<const M *>(m.get()));
      };
    s->callback = adapt_callback<M>(std::decay_t<F>(std::forward<F>(cb)));
    subs_.push_back(s);
    mw().add_sub(s.get());
    return s;
  }

  template<typename R, typename P, typename F>
  TimerBase::SharedPtr create_wall_timer(
    std::chrono::duration<R, P> period, F cb, CallbackGroup::SharedPtr g = nullptr)
  {
    return add_timer(std::chrono::duration_cast<std::chrono::nanoseconds>(period).count(), cb, g);
  }
  TimerBase::SharedPtr add_timer(i64 period, std::function<void ()> cb, CallbackGroup::SharedPtr g);

  CallbackGroup::SharedPtr create_callback_group(CallbackGroupType t, bool = true)
  {
    auto g = std::make_shared<CallbackGroup>(t);
    groups_.push_back(g);
    return g;
  }

  template<typename T>
  auto declare_parameter(const std::string & name, const T & dflt)
  {
    using U = std::conditional_t<std::is_convertible_v<T, std::string>, std::string, T>;
    const U d = dflt;
    auto it = proc_->params.find(name);
    const std::string text = it != proc_->params.end() ? it->second : print_param<U>(d);
    if (declared_.count(name)) {
      throw std::runtime_error("parameter '" + name + "' has already been declared");
    }
    declared_[name] = text;
    return it != proc_->params.end() ? parse_param<U>(text) : d;
  }
  template<typename T>
  T declare_parameter(const std::string & name)
  {
    auto it = proc_->params.find(name);
    if (it == proc_->params.end()) {
      throw std::runtime_error("parameter '" + name + "' is not initialized");
    }
    declared_[name] = it->second;
    return parse_param<T>(it->second);
  }
  bool has_parameter(const std::string & n) const {return declared_.count(n) > 0;}
  Parameter get_parameter(const std::string & n) const
  {
    auto it = declared_.find(n);
    if (it == declared_.end()) {
      throw std::runtime_error("parameter '" + n + "' not declared");
    }
    Parameter p;
    p.name = n;
    p.text = it->second;
    return p;
  }
  template<typename T>
  bool get_parameter_or(const std::string & n, T & v, const T & dflt) const
  {
    const bool found = get_parameter(n, v);
    if (!found) {
      v = dflt;
    }
    return found;
  }
  template<typename T>
  T get_parameter_or(const std::string & n, const T & dflt) const
  {
    T v = dflt;
    get_parameter(n, v);
    return v;
  }
  template<typename T>
  bool get_parameter(const std::string & n, T & v) const
  {
    auto it = declared_.find(n);
    if (it == declared_.end()) {
      return false;
    }
    v = parse_param<T>(it->second);
    return true;
  }

  std::string resolve(const std::string & topic) const;
  sim::Process * process() const {return proc_;}

  // used by the executors
  std::vector<std::weak_ptr<SubBase>> subs_;
  std::vector<std::weak_ptr<TimerBase>> timers_;
  std::vector<CallbackGroup::SharedPtr> groups_;
  CallbackGroup::SharedPtr default_group_;

private:
  void setup(const NodeOptions & o);
  std::string name_, ns_, fqn_;
  sim::Process * proc_;
  Clock::SharedPtr clock_;
  std::map<std::string, std::string> declared_;
  NodeOptions options_;
};

template<typename NodeT, typename F>
TimerBase::SharedPtr create_timer(
  NodeT node, Clock::SharedPtr, Duration period, F && cb, CallbackGroup::SharedPtr g = nullptr)
{
  return node->add_timer(period.nanoseconds(), std::function<void ()>(cb), g);
}

// ------------------------------------------------------------------ executors
class Executor
{
public:
  explicit Executor(const ExecutorOptions & = ExecutorOptions()) {}
  virtual ~Executor() {}
  virtual void add_node(std::shared_ptr<Node> n, bool = true) {nodes_.push_back(n);}
  virtual void remove_node(std::shared_ptr<Node> n, bool = true);
  virtual void spin() = 0;
  void spin_some(std::chrono::nanoseconds = std::chrono::nanoseconds(0));
  void spin_once(std::chrono::nanoseconds = std::chrono::nanoseconds(-1));
  void cancel() {canceled_ = true; mw().wake(sim::W()->current_process);}

protected:
  bool run_one(sim::Process * p);
  void loop(sim::Process * p);
  std::vector<std::weak_ptr<Node>> nodes_;
  bool canceled_ = false;
};

namespace executors
{
class SingleThreadedExecutor : public Executor
{
public:
  explicit SingleThreadedExecutor(const ExecutorOptions & = ExecutorOptions()) {}
  void spin() override;
};
class StaticSingleThreadedExecutor : public SingleThreadedExecutor {};
class MultiThreadedExecutor : public Executor
{
public:
  explicit MultiThreadedExecutor(
    const ExecutorOptions & = ExecutorOptions(), size_t n = 0, bool = false,
    std::chrono::nanoseconds = std::chrono::nanoseconds(-1))
  : n_(n) {}
  void spin() override;
  size_t get_number_of_threads() const {return n_;}

private:
  size_t n_;
};
}  // namespace executors

void init(int argc, char const * const * argv);
inline void init(int argc, char ** argv) {init(argc, const_cast<char const * const *>(argv));}
bool ok(Context::SharedPtr = nullptr);
bool shutdown(Context::SharedPtr = nullptr, const std::string & = "");
void on_shutdown(std::function<void ()> f, Context::SharedPtr = nullptr);
void spin(std::shared_ptr<Node> n);
void spin_some(std::shared_ptr<Node> n);
bool sleep_for(const std::chrono::nanoseconds & d, Context::SharedPtr = nullptr);

class Rate
{
public:
  explicit Rate(double hz) : period_(static_cast<i64>(1e9 / hz)), last_(sim::W()->now) {}
  explicit Rate(std::chrono::nanoseconds d) : period_(d.count()), last_(sim::W()->now) {}
  bool sleep();
  void reset() {last_ = sim::W()->now;}

private:
  i64 period_, last_;
};
using WallRate = Rate;

// components
struct ComponentRegistry
{
  std::map<std::string, std::function<std::shared_ptr<Node>(const NodeOptions &)>> factories;
};
ComponentRegistry & components();

}  // namespace rclcpp

#endif  // SIM_RCLCPP_HPP_
