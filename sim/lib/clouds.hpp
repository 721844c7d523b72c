// Point clouds as messages and as PCD files, built without PCL.
#ifndef SIM_LIB_CLOUDS_HPP_
#define SIM_LIB_CLOUDS_HPP_

#include <cmath>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>

#include <sensor_msgs/msg/point_cloud2.hpp>

#include "core/sim.hpp"

namespace sim
{

using CloudMsg = sensor_msgs::msg::PointCloud2;

// datatypes of sensor_msgs/PointField
enum {F_INT8 = 1, F_UINT8, F_INT16, F_UINT16, F_INT32, F_UINT32, F_FLOAT32, F_FLOAT64};
inline int field_size(int t)
{
  static const int s[] = {0, 1, 1, 2, 2, 4, 4, 4, 8};
  return t >= 1 && t <= 8 ? s[t] : 0;
}

struct FieldSpec
{
  std::string name;
  int type;
};

// One value per field; every supported type fits a double exactly.
struct RawCloud
{
  std::vector<FieldSpec> fields;
  std::vector<std::vector<double>> points;
  u64 height = 1;
  bool dense = true;
  size_t size() const {return points.size();}
  int index(const std::string & n) const
  {
    for (size_t i = 0; i < fields.size(); ++i) {
      if (fields[i].name == n) {
        return static_cast<int>(i);
      }
    }
    return -1;
  }
};

inline void put_value(std::uint8_t * p, int type, double v)
{
  switch (type) {
    case F_INT8: {std::int8_t x = static_cast<std::int8_t>(v); memcpy(p, &x, 1);} break;
    case F_UINT8: {std::uint8_t x = static_cast<std::uint8_t>(v); memcpy(p, &x, 1);} break;
    case F_INT16: {std::int16_t x = static_cast<std::int16_t>(v); memcpy(p, &x, 2);} break;
    case F_UINT16: {std::uint16_t x = static_cast<std::uint16_t>(v); memcpy(p, &x, 2);} break;
    case F_INT32: {std::int32_t x = static_cast<std::int32_t>(v); memcpy(p, &x, 4);} break;
    case F_UINT32: {std::uint32_t x = static_cast<std::uint32_t>(v); memcpy(p, &x, 4);} break;
    case F_FLOAT32: {float x = static_cast<float>(v); memcpy(p, &x, 4);} break;
    default: memcpy(p, &v, 8);
  }
}
inline double get_value(const std::uint8_t * p, int type)
{
  switch (type) {
    case F_INT8: {std::int8_t x; memcpy(&x, p, 1); return x;}
    case F_UINT8: {std::uint8_t x; memcpy(&x, p, 1); return x;}
    case F_INT16: {std::int16_t x; memcpy(&x, p, 2); return x;}
    case F_UINT16: {std::uint16_t x; memcpy(&x, p, 2); return x;}
    case F_INT32: {std::int32_t x; memcpy(&x, p, 4); return x;}
    case F_UINT32: {std::uint32_t x; memcpy(&x, p, 4); return x;}
    case F_FLOAT32: {float x; memcpy(&x, p, 4); return x;}
    default: {double x; memcpy(&x, p, 8); return x;}
  }
}

// pad: unused bytes after each field, as drivers have them
inline CloudMsg to_msg(const RawCloud & c, i64 stamp_ns, const std::string & frame, int pad = 0)
{
  CloudMsg m;
  m.header.stamp.sec = static_cast<std::int32_t>(stamp_ns / 1000000000LL);
  m.header.stamp.nanosec = static_cast<std::uint32_t>(stamp_ns % 1000000000LL);
  m.header.frame_id = frame;
  std::uint32_t off = 0;
  for (const auto & f : c.fields) {
    sensor_msgs::msg::PointField pf;
    pf.name = f.name;
    pf.offset = off;
    pf.datatype = static_cast<std::uint8_t>(f.type);
    pf.count = 1;
    m.fields.push_back(pf);
    off += field_size(f.type) + pad;
  }
  m.point_step = off;
  m.height = static_cast<std::uint32_t>(c.height);
  m.width = static_cast<std::uint32_t>(c.points.size() / c.height);
  m.row_step = m.width * m.point_step;
  m.is_bigendian = false;
  m.is_dense = c.dense;
  m.data.assign(c.points.size() * off, 0);
  for (size_t i = 0; i < c.points.size(); ++i) {
    for (size_t k = 0; k < c.fields.size(); ++k) {
      put_value(&m.data[i * off + m.fields[k].offset], c.fields[k].type, c.points[i][k]);
    }
  }
  return m;
}

// false: the message's layout does not fit its data
inline bool from_msg(const CloudMsg & m, RawCloud & c)
{
  c = RawCloud();
  for (const auto & f : m.fields) {
    c.fields.push_back({f.name, f.datatype});
    if (f.offset + field_size(f.datatype) > m.point_step) {
      return false;
    }
  }
  const size_t n = static_cast<size_t>(m.width) * m.height;
  if (m.data.size() != n * m.point_step || m.is_bigendian) {
    return false;
  }
  c.height = m.height;
  c.dense = m.is_dense;
  c.points.resize(n);
  for (size_t i = 0; i < n; ++i) {
    for (size_t k = 0; k < m.fields.size(); ++k) {
      c.points[i].push_back(
        get_value(&m.data[i * m.point_step + m.fields[k].offset], m.fields[k].datatype));
    }
  }
  return true;
}

inline bool same_value(double a, double b)
{
  return (a != a && b != b) || memcmp(&a, &b, sizeof(a)) == 0;
}

// Every field of `want` must be there with the same type and values, point by point.
inline std::string cloud_differs(const RawCloud & got, const RawCloud & want)
{
  if (got.size() != want.size()) {
    return fmt("%zu points instead of %zu", got.size(), want.size());
  }
  for (size_t k = 0; k < want.fields.size(); ++k) {
    const int g = got.index(want.fields[k].name);
    if (g < 0) {
      return "field " + want.fields[k].name + " is missing";
    }
    if (got.fields[g].type != want.fields[k].type) {
      return "field " + want.fields[k].name + " has another type";
    }
    for (size_t i = 0; i < want.size(); ++i) {
      if (!same_value(got.points[i][g], want.points[i][k])) {
        return fmt("point %zu of %zu: %s is %.9g instead of %.9g", i, want.size(),
                 want.fields[k].name.c_str(), got.points[i][g], want.points[i][k]);
      }
    }
  }
  return "";
}

inline std::string pcd_header(const RawCloud & c, const std::string & data, u64 points)
{
  std::string a = "FIELDS", s = "SIZE", t = "TYPE", n = "COUNT";
  for (const auto & f : c.fields) {
    a += " " + f.name;
    s += fmt(" %d", field_size(f.type));
    t += f.type >= F_FLOAT32 ? " F" : (f.type % 2 == 1 ? " I" : " U");
    n += " 1";
  }
  return "# .PCD v0.7 - Point Cloud Data file format\nVERSION 0.7\n" + a + "\n" + s + "\n" + t +
         "\n" + n + "\n" +
         fmt("WIDTH %llu\nHEIGHT %llu\nVIEWPOINT 0 0 0 1 0 0 0\nPOINTS %llu\nDATA ",
           (unsigned long long)(points / c.height), (unsigned long long)c.height,
           (unsigned long long)points) + data + "\n";
}

// mode 0: ascii, 1: binary
inline std::string pcd_text(const RawCloud & c, int mode)
{
  std::string s = pcd_header(c, mode == 0 ? "ascii" : "binary", c.size());
  for (const auto & p : c.points) {
    for (size_t k = 0; k < c.fields.size(); ++k) {
      const int t = c.fields[k].type;
      if (mode == 1) {
        std::uint8_t b[8];
        put_value(b, t, p[k]);
        s.append(reinterpret_cast<char *>(b), field_size(t));
      } else {
        s += k ? " " : "";
        s += p[k] != p[k] ? "nan" : (t >= F_FLOAT32 ? fmt("%.9g", p[k]) : fmt("%.0f", p[k]));
      }
    }
    if (mode == 0) {
      s += "\n";
    }
  }
  return s;
}

inline RawCloud random_cloud(Rng & r, size_t n, bool nan_points = false)
{
  RawCloud c;
  c.fields = {{"x", F_FLOAT32}, {"y", F_FLOAT32}, {"z", F_FLOAT32}};
  if (r.chance(0.5)) {
    c.fields.push_back({"intensity", F_FLOAT32});
  }
  if (r.chance(0.3)) {
    c.fields.push_back({"ring", F_UINT16});
  }
  const double off = r.pick(std::vector<double>{0, 0, 100, 1e4, 3e6});
  const double ox = off * r.uniform(-1, 1), oy = off * r.uniform(-1, 1), oz = r.uniform(-5, 5);
  for (size_t i = 0; i < n; ++i) {
    std::vector<double> p;
    for (const auto & f : c.fields) {
      double v = 0;
      if (f.name == "x" || f.name == "y") {
        v = (f.name == "x" ? ox : oy) + r.normal() * 30;
      } else if (f.name == "z") {
        v = oz + r.normal();
      } else if (f.type == F_UINT16) {
        v = static_cast<double>(r.below(64));
      } else {
        v = r.uniform(0, 255);
      }
      if (f.type == F_FLOAT32) {
        v = static_cast<float>(v);
      }
      p.push_back(v);
    }
    if (nan_points && r.chance(0.2)) {
      p[r.below(3)] = r.chance(0.7) ? NAN : (r.chance(0.5) ? INFINITY : -INFINITY);
      c.dense = false;
    }
    c.points.push_back(p);
  }
  return c;
}

inline bool write_file(const std::string & path, const std::string & text)
{
  FILE * f = fopen(path.c_str(), "wb");
  if (!f) {
    return false;
  }
  const bool ok = fwrite(text.data(), 1, text.size(), f) == text.size();
  return fclose(f) == 0 && ok;
}

}  // namespace sim

#endif  // SIM_LIB_CLOUDS_HPP_
