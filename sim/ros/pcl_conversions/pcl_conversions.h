#ifndef SIM_PCL_CONVERSIONS_H_
#define SIM_PCL_CONVERSIONS_H_
#include <string>
#include <pcl/PCLHeader.h>
#include <pcl/PCLPointCloud2.h>
#include <pcl/PCLPointField.h>
#include <pcl/conversions.h>
#include <pcl/io/pcd_io.h>
#include <pcl/point_cloud.h>
#include <pcl/common/io.h>
#include <rclcpp/rclcpp.hpp>
#include <sensor_msgs/msg/point_cloud2.hpp>
#include <sensor_msgs/msg/point_field.hpp>
#include <std_msgs/msg/header.hpp>
namespace pcl_conversions
{
inline void fromPCL(const std::uint64_t & pcl_stamp, rclcpp::Time & stamp)
{
  stamp = rclcpp::Time(static_cast<sim::i64>(pcl_stamp * 1000ull));
}
inline builtin_interfaces::msg::Time sim_stamp(std::uint64_t us)
{
  builtin_interfaces::msg::Time t;
  t.sec = static_cast<int32_t>(us / 1000000ull);
  t.nanosec = static_cast<uint32_t>((us % 1000000ull) * 1000ull);
  return t;
}
inline std_msgs::msg::Header fromPCL(const pcl::PCLHeader & h)
{
  std_msgs::msg::Header r;
  r.stamp = sim_stamp(h.stamp);
  r.frame_id = h.frame_id;
  return r;
}
inline void fromPCL(const pcl::PCLHeader & h, std_msgs::msg::Header & r) {r = fromPCL(h);}
inline std::uint64_t toPCL(const rclcpp::Time & t) {return static_cast<std::uint64_t>(t.nanoseconds()) / 1000ull;}
inline pcl::PCLHeader toPCL(const std_msgs::msg::Header & h)
{
  pcl::PCLHeader r;
  // as in pcl_conversions: through rclcpp::Time, which refuses negative stamps
  r.stamp = static_cast<std::uint64_t>(rclcpp::Time(h.stamp).nanoseconds()) / 1000ull;
  r.seq = 0;
  r.frame_id = h.frame_id;
  return r;
}
inline void toPCL(const std_msgs::msg::Header & h, pcl::PCLHeader & r) {r = toPCL(h);}
inline void fromPCL(const pcl::PCLPointField & a, sensor_msgs::msg::PointField & b)
{
  b.name = a.name;
  b.offset = a.offset;
  b.datatype = a.datatype;
  b.count = a.count;
}
inline void toPCL(const sensor_msgs::msg::PointField & a, pcl::PCLPointField & b)
{
  b.name = a.name;
  b.offset = a.offset;
  b.datatype = a.datatype;
  b.count = a.count;
}
inline void copyPCLPointCloud2MetaData(
  const pcl::PCLPointCloud2 & a, sensor_msgs::msg::PointCloud2 & b)
{
  fromPCL(a.header, b.header);
  b.height = a.height;
  b.width = a.width;
  b.fields.resize(a.fields.size());
  for (size_t i = 0; i < a.fields.size(); ++i) {
    fromPCL(a.fields[i], b.fields[i]);
  }
  b.is_bigendian = a.is_bigendian;
  b.point_step = a.point_step;
  b.row_step = a.row_step;
  b.is_dense = a.is_dense;
}
inline void fromPCL(const pcl::PCLPointCloud2 & a, sensor_msgs::msg::PointCloud2 & b)
{
  copyPCLPointCloud2MetaData(a, b);
  b.data = a.data;
}
inline void moveFromPCL(pcl::PCLPointCloud2 & a, sensor_msgs::msg::PointCloud2 & b)
{
  copyPCLPointCloud2MetaData(a, b);
  b.data.swap(a.data);
}
inline void toPCL(const sensor_msgs::msg::PointCloud2 & a, pcl::PCLPointCloud2 & b)
{
  toPCL(a.header, b.header);
  b.height = a.height;
  b.width = a.width;
  b.fields.resize(a.fields.size());
  for (size_t i = 0; i < a.fields.size(); ++i) {
    toPCL(a.fields[i], b.fields[i]);
  }
  b.is_bigendian = a.is_bigendian;
  b.point_step = a.point_step;
  b.row_step = a.row_step;
  b.is_dense = a.is_dense;
  b.data = a.data;
}
inline void moveToPCL(sensor_msgs::msg::PointCloud2 & a, pcl::PCLPointCloud2 & b) {toPCL(a, b);}
}  // namespace pcl_conversions
namespace pcl
{
inline int getFieldIndex(const sensor_msgs::msg::PointCloud2 & c, const std::string & name)
{
  for (size_t i = 0; i < c.fields.size(); ++i) {
    if (c.fields[i].name == name) {
      return static_cast<int>(i);
    }
  }
  return -1;
}
template<typename T>
void toROSMsg(const pcl::PointCloud<T> & c, sensor_msgs::msg::PointCloud2 & m)
{
  pcl::PCLPointCloud2 p;
  pcl::toPCLPointCloud2(c, p);
  pcl_conversions::moveFromPCL(p, m);
}
template<typename T>
void fromROSMsg(const sensor_msgs::msg::PointCloud2 & m, pcl::PointCloud<T> & c)
{
  pcl::PCLPointCloud2 p;
  pcl_conversions::toPCL(m, p);
  pcl::fromPCLPointCloud2(p, c);
}
template<typename T>
void moveFromROSMsg(sensor_msgs::msg::PointCloud2 & m, pcl::PointCloud<T> & c) {fromROSMsg(m, c);}
namespace io
{
inline int loadPCDFile(const std::string & file, sensor_msgs::msg::PointCloud2 & m)
{
  pcl::PCLPointCloud2 p;
  const int r = pcl::io::loadPCDFile(file, p);
  pcl_conversions::moveFromPCL(p, m);
  return r;
}
inline int savePCDFile(
  const std::string & file, const sensor_msgs::msg::PointCloud2 & m,
  const Eigen::Vector4f & o = Eigen::Vector4f::Zero(),
  const Eigen::Quaternionf & q = Eigen::Quaternionf::Identity(), const bool binary = false)
{
  pcl::PCLPointCloud2 p;
  pcl_conversions::toPCL(m, p);
  return pcl::io::savePCDFile(file, p, o, q, binary);
}
}  // namespace io
}  // namespace pcl
#endif
