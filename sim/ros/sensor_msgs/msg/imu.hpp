// generated by gen_msgs.py
#ifndef SIM_ROS_SENSOR_MSGS_IMU
#define SIM_ROS_SENSOR_MSGS_IMU
#include <array>
#include <cstdint>
#include <memory>
#include <string>
#include <vector>
#include <geometry_msgs/msg/quaternion.hpp>
#include <geometry_msgs/msg/vector3.hpp>
#include <std_msgs/msg/header.hpp>
namespace sensor_msgs
{
namespace msg
{
struct Imu
{
  using SharedPtr = std::shared_ptr<Imu>;
  using ConstSharedPtr = std::shared_ptr<const Imu>;
  using UniquePtr = std::unique_ptr<Imu>;
  using ConstUniquePtr = std::unique_ptr<const Imu>;
  using WeakPtr = std::weak_ptr<Imu>;
  std_msgs::msg::Header header{};
  Imu & set__header(const std_msgs::msg::Header & v) {header = v; return *this;}
  geometry_msgs::msg::Quaternion orientation{};
  Imu & set__orientation(const geometry_msgs::msg::Quaternion & v) {orientation = v; return *this;}
  std::array<double, 9> orientation_covariance{};
  Imu & set__orientation_covariance(const std::array<double, 9> & v) {orientation_covariance = v; return *this;}
  geometry_msgs::msg::Vector3 angular_velocity{};
  Imu & set__angular_velocity(const geometry_msgs::msg::Vector3 & v) {angular_velocity = v; return *this;}
  std::array<double, 9> angular_velocity_covariance{};
  Imu & set__angular_velocity_covariance(const std::array<double, 9> & v) {angular_velocity_covariance = v; return *this;}
  geometry_msgs::msg::Vector3 linear_acceleration{};
  Imu & set__linear_acceleration(const geometry_msgs::msg::Vector3 & v) {linear_acceleration = v; return *this;}
  std::array<double, 9> linear_acceleration_covariance{};
  Imu & set__linear_acceleration_covariance(const std::array<double, 9> & v) {linear_acceleration_covariance = v; return *this;}
  bool operator==(const Imu & o) const {return header == o.header && orientation == o.orientation && orientation_covariance == o.orientation_covariance && angular_velocity == o.angular_velocity && angular_velocity_covariance == o.angular_velocity_covariance && linear_acceleration == o.linear_acceleration && linear_acceleration_covariance == o.linear_acceleration_covariance;}
  bool operator!=(const Imu & o) const {return !(*this == o);}
};
}  // namespace msg
}  // namespace sensor_msgs
#endif
