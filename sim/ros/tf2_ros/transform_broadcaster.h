#ifndef SIM_TF2_ROS_TRANSFORM_BROADCASTER_H_
#define SIM_TF2_ROS_TRANSFORM_BROADCASTER_H_
#include <rclcpp/rclcpp.hpp>
#include <tf2_msgs/msg/tf_message.hpp>
#include <geometry_msgs/msg/transform_stamped.hpp>
namespace tf2_ros
{
class TransformBroadcaster
{
public:
  explicit TransformBroadcaster(rclcpp::Node & node) {init(&node);}
  explicit TransformBroadcaster(rclcpp::Node * node) {init(node);}
  template<class T>
  explicit TransformBroadcaster(const std::shared_ptr<T> & node) {init(node.get());}
  template<class N, class Q>
  TransformBroadcaster(N && node, const Q &) {init(&*node);}
  void sendTransform(const geometry_msgs::msg::TransformStamped & t)
  {
    sendTransform(std::vector<geometry_msgs::msg::TransformStamped>{t});
  }
  void sendTransform(const std::vector<geometry_msgs::msg::TransformStamped> & v)
  {
    tf2_msgs::msg::TFMessage m;
    m.transforms = v;
    pub_->publish(m);
  }

private:
  void init(rclcpp::Node * n)
  {
    pub_ = n->create_publisher<tf2_msgs::msg::TFMessage>("/tf", rclcpp::QoS(100));
  }
  rclcpp::Publisher<tf2_msgs::msg::TFMessage>::SharedPtr pub_;
};
}  // namespace tf2_ros
#endif
