// generated by gen_msgs.py
#ifndef SIM_ROS_SENSOR_MSGS_POINT_FIELD
#define SIM_ROS_SENSOR_MSGS_POINT_FIELD
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace sensor_msgs
{
namespace msg
{
struct PointField
{
  using SharedPtr = std::shared_ptr<PointField>;
  using ConstSharedPtr = std::shared_ptr<const PointField>;
  using UniquePtr = std::unique_ptr<PointField>;
  using ConstUniquePtr = std::unique_ptr<const PointField>;
  using WeakPtr = std::weak_ptr<PointField>;
  static constexpr uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;
  std::string name{};
  PointField & set__name(const std::string & v) {name = v; return *this;}
  uint32_t offset{0};
  PointField & set__offset(const uint32_t & v) {offset = v; return *this;}
  uint8_t datatype{0};
  PointField & set__datatype(const uint8_t & v) {datatype = v; return *this;}
  uint32_t count{0};
  PointField & set__count(const uint32_t & v) {count = v; return *this;}
  bool operator==(const PointField & o) const {return name == o.name && offset == o.offset && datatype == o.datatype && count == o.count;}
  bool operator!=(const PointField & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace sensor_msgs
#endif
