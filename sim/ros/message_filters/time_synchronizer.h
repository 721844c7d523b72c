#ifndef SIM_TIME_SYNCHRONIZER_H_
#define SIM_TIME_SYNCHRONIZER_H_
#include <message_filters/synchronizer.h>
#include <message_filters/sync_policies/exact_time.h>
namespace message_filters
{
template<typename ... M>
class TimeSynchronizer : public Synchronizer<sync_policies::ExactTime<M...>>
{
  using Base = Synchronizer<sync_policies::ExactTime<M...>>;

public:
  explicit TimeSynchronizer(uint32_t q) : Base(sync_policies::ExactTime<M...>(q)) {}
  template<typename F0, typename F1>
  TimeSynchronizer(F0 & f0, F1 & f1, uint32_t q) : Base(sync_policies::ExactTime<M...>(q), f0, f1) {}
};
}  // namespace message_filters
#endif
