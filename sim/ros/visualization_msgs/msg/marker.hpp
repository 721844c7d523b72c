// generated by gen_msgs.py
#ifndef SIM_ROS_VISUALIZATION_MSGS_MARKER
#define SIM_ROS_VISUALIZATION_MSGS_MARKER
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <builtin_interfaces/msg/duration.hpp>
#include <geometry_msgs/msg/point.hpp>
#include <geometry_msgs/msg/pose.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <std_msgs/msg/color_rgba.hpp>
#include <std_msgs/msg/header.hpp>
namespace visualization_msgs
{
namespace msg
{
struct Marker
{
  using SharedPtr = std::shared_ptr<Marker>;
  using ConstSharedPtr = std::shared_ptr<const Marker>;
  using UniquePtr = std::unique_ptr<Marker>;
  using ConstUniquePtr = std::unique_ptr<const Marker>;
  using WeakPtr = std::weak_ptr<Marker>;
  static constexpr int32_t ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8, ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3;
  std_msgs::msg::Header header{};
  Marker & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  std::string ns{};
  Marker & set__ns(const std::string & v) {ns = v; return *this;}
  int32_t id{0};
  Marker & set__id(const int32_t & v) {id = v; return *this;}
  int32_t type{0};
  Marker & set__type(const int32_t & v) {type = v; return *this;}
  int32_t action{0};
  Marker & set__action(const int32_t & v) {action = v; return *this;}
  geometry_msgs::msg::Pose pose{};
  Marker & set__pose(const geometry_msgs::msg::Pose & v) {pose = v; return *this;}
  geometry_msgs::msg::Vector3 scale{};
  Marker & set__scale(const geometry_msgs::msg::Vector3 & v) {scale = v; return *this;}
  std_msgs::msg::ColorRGBA color{};
  Marker & set__color(const std_msgs::msg::ColorRGBA & v) {color = v; return *this;}
  builtin_interfaces::msg::Duration lifetime{};
  Marker & set__lifetime(const builtin_interfaces::msg::Duration & v) {lifetime = v; return *this;}
  std::vector<geometry_msgs::msg::Point> points{};
  Marker & set__points(const std::vector<geometry_msgs::msg::Point> & v) {points = v; return *this;}
  std::vector<std_msgs::msg::ColorRGBA> colors{};
  Marker & set__colors(const std::vector<std_msgs::msg::ColorRGBA> & v) {colors = v; return *this;}
  std::string text{};
  Marker & set__text(const std::string & v) {text = v; return *this;}
  bool operator==(const Marker & o) const {return header == o.header && ns == o.ns && id == o.id && type == o.type && action == o.action && pose == o.pose && scale == o.scale && color == o.color && lifetime == o.lifetime && points == o.points && colors == o.colors && text == o.text;}
  bool operator!=(const Marker & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace visualization_msgs
#endif
