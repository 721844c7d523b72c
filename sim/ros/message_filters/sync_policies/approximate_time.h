#ifndef SIM_APPROXIMATE_TIME_H_
#define SIM_APPROXIMATE_TIME_H_
#include <rclcpp/rclcpp.hpp>
#include <cstdlib>
#include <deque>
#include <limits>
namespace message_filters
{
namespace sync_policies
{
// Pairs messages whose stamps are near, each used at most once, stamps increasing.
template<typename ... M>
struct ApproximateTime
{
  using Tuple = std::tuple<std::shared_ptr<const M>...>;
  using Signature = std::function<void (const std::shared_ptr<const M> & ...)>;
  static constexpr size_t N = sizeof...(M);
  explicit ApproximateTime(uint32_t q) : queue_size(q) {}
  ApproximateTime(const ApproximateTime & o)
  : queue_size(o.queue_size), max_interval(o.max_interval) {}
  void setAgePenalty(double) {}
  void setInterMessageLowerBound(int, const rclcpp::Duration &) {}
  void setMaxIntervalDuration(const rclcpp::Duration & d) {max_interval = d.nanoseconds();}

  template<size_t I, typename P>
  void add(const P & msg)
  {
    std::lock_guard<std::mutex> lock(mutex);
    auto & q = std::get<I>(queues);
    q.push_back(msg);
    if (queue_size > 0 && q.size() > queue_size) {
      q.pop_front();
    }
    match(std::index_sequence_for<M...>{});
  }

  uint32_t queue_size;
  std::function<void (const Tuple &)> signal;

private:
  using i64 = sim::i64;
  template<typename P>
  static i64 stamp(const P & m) {return rclcpp::Time(m->header.stamp).nanoseconds();}
  template<typename Q>
  static void advance(Q & q, i64 pivot)
  {
    while (q.size() > 1 &&
      std::llabs(stamp(q[1]) - pivot) <= std::llabs(stamp(q[0]) - pivot))
    {
      q.pop_front();
    }
  }
  template<size_t... I>
  void match(std::index_sequence<I...>)
  {
    while ((!std::get<I>(queues).empty() && ...)) {
      i64 pivot = std::numeric_limits<i64>::min();
      ((pivot = std::max(pivot, stamp(std::get<I>(queues).front()))), ...);
      (advance(std::get<I>(queues), pivot), ...);
      const Tuple t(std::get<I>(queues).front()...);
      (std::get<I>(queues).pop_front(), ...);
      i64 lo = std::numeric_limits<i64>::max(), hi = std::numeric_limits<i64>::min();
      ((lo = std::min(lo, stamp(std::get<I>(t))), hi = std::max(hi, stamp(std::get<I>(t)))), ...);
      if (hi - lo <= max_interval) {
        sim::W()->count("sync_matches");
        signal(t);
      }
    }
  }
  i64 max_interval = std::numeric_limits<i64>::max();
  std::tuple<std::deque<std::shared_ptr<const M>>...> queues;
  std::mutex mutex;
};
}  // namespace sync_policies
}  // namespace message_filters
#endif
