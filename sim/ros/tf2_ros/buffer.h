#ifndef SIM_TF2_ROS_BUFFER_H_
#define SIM_TF2_ROS_BUFFER_H_
#include <rclcpp/rclcpp.hpp>
#include <tf2/buffer_core.h>
namespace tf2
{
template<class T>
void doTransform(const T & in, T & out, const geometry_msgs::msg::TransformStamped & t);
}  // namespace tf2
namespace tf2_ros
{
inline tf2::TimePoint fromRclcpp(const rclcpp::Time & t)
{
  return tf2::TimePoint(std::chrono::nanoseconds(t.nanoseconds()));
}
class Buffer : public tf2::BufferCore
{
public:
  explicit Buffer(
    rclcpp::Clock::SharedPtr c, tf2::Duration cache = tf2::BUFFER_CORE_DEFAULT_CACHE_TIME)
  : BufferCore(cache), clock_(c) {}
  using tf2::BufferCore::lookupTransform;
  using tf2::BufferCore::canTransform;
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const rclcpp::Time & t,
    rclcpp::Duration = rclcpp::Duration(0, 0)) const
  {
    return BufferCore::lookupTransform(target, source, fromRclcpp(t));
  }
  geometry_msgs::msg::TransformStamped lookupTransform(
    const std::string & target, const std::string & source, const tf2::TimePoint & t,
    tf2::Duration timeout) const
  {
    const auto end = sim::W()->now + timeout.count();
    while (!BufferCore::canTransform(target, source, t) && sim::W()->now < end) {
      rclcpp::sleep_for(std::chrono::milliseconds(10));
    }
    return BufferCore::lookupTransform(target, source, t);
  }

  bool canTransform(
    const std::string & target, const std::string & source, const rclcpp::Time & t,
    rclcpp::Duration timeout = rclcpp::Duration(0, 0), std::string * err = nullptr) const
  {
    return canTransform(target, source, fromRclcpp(t), tf2::Duration(timeout.nanoseconds()), err);
  }
  bool canTransform(
    const std::string & target, const std::string & source, const tf2::TimePoint & t,
    tf2::Duration timeout, std::string * err = nullptr) const
  {
    const auto end = sim::W()->now + timeout.count();
    while (!BufferCore::canTransform(target, source, t, err) && sim::W()->now < end) {
      rclcpp::sleep_for(std::chrono::milliseconds(10));
    }
    return BufferCore::canTransform(target, source, t, err);
  }
  template<class T>
  T & transform(
    const T & in, T & out, const std::string & target, tf2::Duration timeout = tf2::Duration(0)) const
  {
    tf2::doTransform(
      in, out, lookupTransform(target, in.header.frame_id, fromRclcpp(rclcpp::Time(in.header.stamp)),
      timeout));
    return out;
  }
  template<class T>
  T transform(const T & in, const std::string & target, tf2::Duration timeout = tf2::Duration(0)) const
  {
    T out;
    return transform(in, out, target, timeout);
  }

private:
  rclcpp::Clock::SharedPtr clock_;
};
}  // namespace tf2_ros
#endif
