// generated by gen_msgs.py
#ifndef SIM_ROS_SENSOR_MSGS_POINT_CLOUD2
#define SIM_ROS_SENSOR_MSGS_POINT_CLOUD2
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <sensor_msgs/msg/point_field.hpp>
#include <std_msgs/msg/header.hpp>
namespace sensor_msgs
{
namespace msg
{
struct PointCloud2
{
  using SharedPtr = std::shared_ptr<PointCloud2>;
  using ConstSharedPtr = std::shared_ptr<const PointCloud2>;
  using UniquePtr = std::unique_ptr<PointCloud2>;
  using ConstUniquePtr = std::unique_ptr<const PointCloud2>;
  using WeakPtr = std::weak_ptr<PointCloud2>;
  std_msgs::msg::Header header{};
  PointCloud2 & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  uint32_t height{0};
  PointCloud2 & set__height(const uint32_t & v) {height = v; return *this;}
  uint32_t width{0};
  PointCloud2 & set__width(const uint32_t & v) {width = v; return *this;}
  std::vector<sensor_msgs::msg::PointField> fields{};
  PointCloud2 & set__fields(const std::vector<sensor_msgs::msg::PointField> & v) {fields = v; return *this;}
  bool is_bigendian{false};
  PointCloud2 & set__is_bigendian(const bool & v) {is_bigendian = v; return *this;}
  uint32_t point_step{0};
  PointCloud2 & set__point_step(const uint32_t & v) {point_step = v; return *this;}
  uint32_t row_step{0};
  PointCloud2 & set__row_step(const uint32_t & v) {row_step = v; return *this;}
  std::vector<uint8_t> data{};
  PointCloud2 & set__data(const std::vector<uint8_t> & v) {data = v; return *this;}
  bool is_dense{false};
  PointCloud2 & set__is_dense(const bool & v) {is_dense = v; return *this;}
  bool operator==(const PointCloud2 & o) const {return header == o.header && height == o.height && width == o.width && fields == o.fields && is_bigendian == o.is_bigendian && point_step == o.point_step && row_step == o.row_step && data == o.data && is_dense == o.is_dense;}
  bool operator!=(const PointCloud2 & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace sensor_msgs
#endif
