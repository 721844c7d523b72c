#ifndef SIM_TF2_ROS_TRANSFORM_LISTENER_H_
#define SIM_TF2_ROS_TRANSFORM_LISTENER_H_
#include <rclcpp/rclcpp.hpp>
#include <tf2_msgs/msg/tf_message.hpp>
#include <tf2/buffer_core.h>
#include <tf2_ros/buffer.h>
namespace tf2_ros
{
class TransformListener
{
public:
  TransformListener(tf2::BufferCore & buffer, rclcpp::Node * node, bool spin_thread = true)
  : buffer_(buffer) {init(node, spin_thread);}
  template<class NodePtr>
  TransformListener(tf2::BufferCore & buffer, NodePtr && node, bool spin_thread = true)
  : buffer_(buffer) {init(&*node, spin_thread);}
  explicit TransformListener(tf2::BufferCore & buffer, bool = true)
  : buffer_(buffer), own_(std::make_shared<rclcpp::Node>("transform_listener_impl"))
  {
    init(own_.get(), true);
  }
  virtual ~TransformListener() {}

private:
  void init(rclcpp::Node * node, bool spin_thread);
  void add(const tf2_msgs::msg::TFMessage & m, bool is_static);
  tf2::BufferCore & buffer_;
  std::shared_ptr<rclcpp::Node> own_;
  rclcpp::Subscription<tf2_msgs::msg::TFMessage>::SharedPtr sub_, sub_static_;
};
}  // namespace tf2_ros
#endif
