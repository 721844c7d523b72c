// generated by gen_msgs.py
#ifndef SIM_ROS_TF2_MSGS_TF_MESSAGE
#define SIM_ROS_TF2_MSGS_TF_MESSAGE
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/transform_stamped.hpp>
namespace tf2_msgs
{
namespace msg
{
struct TFMessage
{
  using SharedPtr = std::shared_ptr<TFMessage>;
  using ConstSharedPtr = std::shared_ptr<const TFMessage>;
  using UniquePtr = std::unique_ptr<TFMessage>;
  using ConstUniquePtr = std::unique_ptr<const TFMessage>;
  using WeakPtr = std::weak_ptr<TFMessage>;
  std::vector<geometry_msgs::msg::TransformStamped> transforms{};
  TFMessage & set__transforms(const std::vector<geometry_msgs::msg::TransformStamped> & v) {transforms = v; return *this;}
  bool operator==(const TFMessage & o) const {return transforms == o.transforms;}
  bool operator!=(const TFMessage & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace tf2_msgs
#endif
