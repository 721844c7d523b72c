#ifndef SIM_MESSAGE_FILTERS_SUBSCRIBER_H_
#define SIM_MESSAGE_FILTERS_SUBSCRIBER_H_
#include <rclcpp/rclcpp.hpp>
namespace message_filters
{
template<typename M, typename NodeT = rclcpp::Node>
class Subscriber
{
public:
  using Message = M;
  using MConstPtr = std::shared_ptr<const M>;
  Subscriber() {}
  Subscriber(NodeT * n, const std::string & topic, const rmw_qos_profile_t q = rmw_qos_profile_default)
  {
    subscribe(n, topic, q);
  }
  Subscriber(
    NodeT * n, const std::string & topic, const rmw_qos_profile_t q,
    const rclcpp::SubscriptionOptions & o)
  {
    subscribe(n, topic, q, o);
  }
  Subscriber(
    std::shared_ptr<NodeT> n, const std::string & topic,
    const rmw_qos_profile_t q = rmw_qos_profile_default)
  {
    subscribe(n.get(), topic, q);
  }
  void subscribe(
    NodeT * n, const std::string & topic, const rmw_qos_profile_t q = rmw_qos_profile_default,
    const rclcpp::SubscriptionOptions & o = rclcpp::SubscriptionOptions())
  {
    rclcpp::QoS qos(rclcpp::QoSInitialization::from_rmw(q), q);
    sub_ = n->template create_subscription<M>(
      topic, qos, [this](const std::shared_ptr<const M> m) {
        auto cbs = callbacks_;
        for (auto & cb : cbs) {
          cb(m);
        }
      }, o);
  }
  void unsubscribe() {sub_.reset();}
  template<typename F>
  int registerCallback(F f)
  {
    callbacks_.push_back(std::function<void (const MConstPtr &)>(f));
    return 0;
  }

private:
  typename rclcpp::Subscription<M>::SharedPtr sub_;
  std::vector<std::function<void (const MConstPtr &)>> callbacks_;
};
}  // namespace message_filters
#endif
