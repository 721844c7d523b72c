// generated by gen_msgs.py
#ifndef SIM_ROS_VISUALIZATION_MSGS_MARKER_ARRAY
#define SIM_ROS_VISUALIZATION_MSGS_MARKER_ARRAY
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <visualization_msgs/msg/marker.hpp>
namespace visualization_msgs
{
namespace msg
{
struct MarkerArray
{
  using SharedPtr = std::shared_ptr<MarkerArray>;
  using ConstSharedPtr = std::shared_ptr<const MarkerArray>;
  using UniquePtr = std::unique_ptr<MarkerArray>;
  using ConstUniquePtr = std::unique_ptr<const MarkerArray>;
  using WeakPtr = std::weak_ptr<MarkerArray>;
  std::vector<visualization_msgs::msg::Marker> markers{};
  MarkerArray & set__markers(const std::vector<visualization_msgs::msg::Marker> & v) {markers = v; return *this;}
  bool operator==(const MarkerArray & o) const {return markers == o.markers;}
  bool operator!=(const MarkerArray & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace visualization_msgs
#endif
