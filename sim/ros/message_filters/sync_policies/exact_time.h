#ifndef SIM_EXACT_TIME_H_
#define SIM_EXACT_TIME_H_
#include <rclcpp/rclcpp.hpp>
namespace message_filters
{
namespace sync_policies
{
// The algorithm of message_filters' ExactTime policy.
template<typename ... M>
struct ExactTime
{
  using Tuple = std::tuple<std::shared_ptr<const M>...>;
  using Signature = std::function<void (const std::shared_ptr<const M> & ...)>;
  static constexpr size_t N = sizeof...(M);
  explicit ExactTime(uint32_t q) : queue_size(q) {}
  ExactTime(const ExactTime & o) : queue_size(o.queue_size) {}

  template<size_t I, typename P>
  void add(const P & msg)
  {
    std::lock_guard<std::mutex> lock(mutex);
    const i64 stamp = rclcpp::Time(msg->header.stamp).nanoseconds();
    Tuple & t = tuples[stamp];
    std::get<I>(t) = msg;
    check(stamp);
  }

  uint32_t queue_size;
  std::function<void (const Tuple &)> signal;

private:
  using i64 = sim::i64;
  void check(i64 stamp)
  {
    Tuple & t = tuples[stamp];
    const bool full = std::apply([](const auto & ... m) {return (static_cast<bool>(m) && ...);}, t);
    if (full) {
      const Tuple copy = t;
      sim::W()->count("sync_matches");
      signal(copy);
      last_signal = stamp;
      tuples.erase(stamp);
      while (!tuples.empty() && tuples.begin()->first <= last_signal) {
        sim::W()->count("sync_dropped_older");
        tuples.erase(tuples.begin());
      }
    }
    if (queue_size > 0) {
      while (tuples.size() > queue_size) {
        sim::W()->count("sync_dropped_overflow");
        tuples.erase(tuples.begin());
      }
    }
  }
  std::map<i64, Tuple> tuples;
  i64 last_signal = 0;
  std::mutex mutex;
};
}  // namespace sync_policies
}  // namespace message_filters
#endif
