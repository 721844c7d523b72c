#ifndef SIM_TF2_ROS_STATIC_TRANSFORM_BROADCASTER_H_
#define SIM_TF2_ROS_STATIC_TRANSFORM_BROADCASTER_H_
#include <rclcpp/rclcpp.hpp>
#include <tf2_msgs/msg/tf_message.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
namespace tf2_ros
{
class StaticTransformBroadcaster
{
public:
  explicit StaticTransformBroadcaster(rclcpp::Node & node) {init(&node);}
  explicit StaticTransformBroadcaster(rclcpp::Node * node) {init(node);}
  template<class T>
  explicit StaticTransformBroadcaster(const std::shared_ptr<T> & node) {init(node.get());}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  {
    sendTransform(std::vector<geometry_msgs::msg::TransformStamped>{t});
  }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v)
  {
    for (const auto & t : v) {
      bool known = false;
      for (auto & u : net_.transforms) {
        if (u.child_frame_id == t.child_frame_id) {
          u = t;
          known = true;
        }
      }
      if (!known) {
        net_.transforms.push_back(t);
      }
    }
    pub_->publish(net_);
  }

private:
  void init(rclcpp::Node * n)
  {
    pub_ = n->create_publisher<tf2_msgs::msg::TFMessage>(
      "/tf_static", rclcpp::QoS(1).transient_local());
  }
  rclcpp::Publisher<tf2_msgs::msg::TFMessage>::SharedPtr pub_;
  tf2_msgs::msg::TFMessage net_;
};
}  // namespace tf2_ros
#endif
