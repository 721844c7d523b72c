// generated by gen_msgs.py
#ifndef SIM_ROS_STD_MSGS_FLOAT32
#define SIM_ROS_STD_MSGS_FLOAT32
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
namespace std_msgs
{
namespace msg
{
struct Float32
{
  using SharedPtr = std::shared_ptr<Float32>;
  using ConstSharedPtr = std::shared_ptr<const Float32>;
  using UniquePtr = std::unique_ptr<Float32>;
  using ConstUniquePtr = std::unique_ptr<const Float32>;
  using WeakPtr = std::weak_ptr<Float32>;
  float data{0};
  Float32 & set__data(const float & v) {data = v; return *this;}
  bool operator==(const Float32 & o) const {return data == o.data;}
  bool operator!=(const Float32 & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace std_msgs
#endif
