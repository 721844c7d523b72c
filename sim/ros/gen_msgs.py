#!/usr/bin/env python3
"""Writes the message headers of the simulated ROS 2 (plain structs with set__ builders)."""
import os
HERE = os.path.dirname(os.path.abspath(__file__))
MSGS = {
 'builtin_interfaces/Time': [('int32_t', 'sec', '0'), ('uint32_t', 'nanosec', '0')],
 'builtin_interfaces/Duration': [('int32_t', 'sec', '0'), ('uint32_t', 'nanosec', '0')],
 'std_msgs/Header': [('builtin_interfaces/Time', 'stamp', ''), ('string', 'frame_id', '')],
 'std_msgs/ColorRGBA': [('float', c, '0') for c in 'rgba'],
 'std_msgs/String': [('string', 'data', '')],
 'std_msgs/Bool': [('bool', 'data', 'false')],
 'geometry_msgs/Point': [('double', c, '0') for c in 'xyz'],
 'geometry_msgs/Vector3': [('double', c, '0') for c in 'xyz'],
 'geometry_msgs/Quaternion': [('double', 'x', '0'), ('double', 'y', '0'), ('double', 'z', '0'), ('double', 'w', '1')],
 'geometry_msgs/Pose': [('geometry_msgs/Point', 'position', ''), ('geometry_msgs/Quaternion', 'orientation', '')],
 'geometry_msgs/PoseStamped': [('std_msgs/Header', 'header', ''), ('geometry_msgs/Pose', 'pose', '')],
 'geometry_msgs/PoseArray': [('std_msgs/Header', 'header', ''), ('geometry_msgs/Pose[]', 'poses', '')],
 'geometry_msgs/PoseWithCovariance': [('geometry_msgs/Pose', 'pose', ''), ('double[36]', 'covariance', '')],
 'geometry_msgs/PoseWithCovarianceStamped': [('std_msgs/Header', 'header', ''), ('geometry_msgs/PoseWithCovariance', 'pose', '')],
 'geometry_msgs/Transform': [('geometry_msgs/Vector3', 'translation', ''), ('geometry_msgs/Quaternion', 'rotation', '')],
 'geometry_msgs/TransformStamped': [('std_msgs/Header', 'header', ''), ('string', 'child_frame_id', ''), ('geometry_msgs/Transform', 'transform', '')],
 'geometry_msgs/Twist': [('geometry_msgs/Vector3', 'linear', ''), ('geometry_msgs/Vector3', 'angular', '')],
 'geometry_msgs/TwistStamped': [('std_msgs/Header', 'header', ''), ('geometry_msgs/Twist', 'twist', '')],
 'geometry_msgs/TwistWithCovariance': [('geometry_msgs/Twist', 'twist', ''), ('double[36]', 'covariance', '')],
 'geometry_msgs/TwistWithCovarianceStamped': [('std_msgs/Header', 'header', ''), ('geometry_msgs/TwistWithCovariance', 'twist', '')],
 'std_msgs/Float32': [('float', 'data', '0')],
 'std_msgs/Float64': [('double', 'data', '0')],
 'std_msgs/Int32': [('int32_t', 'data', '0')],
 'std_msgs/UInt32': [('uint32_t', 'data', '0')],
 'std_msgs/Float64MultiArray': [('double[]', 'data', '')],
 'geometry_msgs/Point32': [('float', c, '0') for c in 'xyz'],
 'geometry_msgs/PointStamped': [('std_msgs/Header', 'header', ''), ('geometry_msgs/Point', 'point', '')],
 'geometry_msgs/Vector3Stamped': [('std_msgs/Header', 'header', ''), ('geometry_msgs/Vector3', 'vector', '')],
 'geometry_msgs/QuaternionStamped': [('std_msgs/Header', 'header', ''), ('geometry_msgs/Quaternion', 'quaternion', '')],
 'geometry_msgs/Pose2D': [('double', 'x', '0'), ('double', 'y', '0'), ('double', 'theta', '0')],
 'nav_msgs/Odometry': [('std_msgs/Header', 'header', ''), ('string', 'child_frame_id', ''), ('geometry_msgs/PoseWithCovariance', 'pose', ''), ('geometry_msgs/TwistWithCovariance', 'twist', '')],
 'nav_msgs/Path': [('std_msgs/Header', 'header', ''), ('geometry_msgs/PoseStamped[]', 'poses', '')],
 'sensor_msgs/PointField': [('string', 'name', ''), ('uint32_t', 'offset', '0'), ('uint8_t', 'datatype', '0'), ('uint32_t', 'count', '0')],
 'sensor_msgs/PointCloud2': [('std_msgs/Header', 'header', ''), ('uint32_t', 'height', '0'), ('uint32_t', 'width', '0'), ('sensor_msgs/PointField[]', 'fields', ''), ('bool', 'is_bigendian', 'false'), ('uint32_t', 'point_step', '0'), ('uint32_t', 'row_step', '0'), ('uint8_t[]', 'data', ''), ('bool', 'is_dense', 'false')],
 'sensor_msgs/Imu': [('std_msgs/Header', 'header', ''), ('geometry_msgs/Quaternion', 'orientation', ''), ('double[9]', 'orientation_covariance', ''), ('geometry_msgs/Vector3', 'angular_velocity', ''), ('double[9]', 'angular_velocity_covariance', ''), ('geometry_msgs/Vector3', 'linear_acceleration', ''), ('double[9]', 'linear_acceleration_covariance', '')],
 'visualization_msgs/Marker': [('std_msgs/Header', 'header', ''), ('string', 'ns', ''), ('int32_t', 'id', '0'), ('int32_t', 'type', '0'), ('int32_t', 'action', '0'), ('geometry_msgs/Pose', 'pose', ''), ('geometry_msgs/Vector3', 'scale', ''), ('std_msgs/ColorRGBA', 'color', ''), ('builtin_interfaces/Duration', 'lifetime', ''), ('geometry_msgs/Point[]', 'points', ''), ('std_msgs/ColorRGBA[]', 'colors', ''), ('string', 'text', '')],
 'visualization_msgs/MarkerArray': [('visualization_msgs/Marker[]', 'markers', '')],
 'tf2_msgs/TFMessage': [('geometry_msgs/TransformStamped[]', 'transforms', '')],
}
CONSTS = {
 'sensor_msgs/PointField': 'static constexpr uint8_t INT8 = 1, UINT8 = 2, INT16 = 3, UINT16 = 4, INT32 = 5, UINT32 = 6, FLOAT32 = 7, FLOAT64 = 8;',
 'visualization_msgs/Marker': 'static constexpr int32_t ARROW = 0, CUBE = 1, SPHERE = 2, CYLINDER = 3, LINE_STRIP = 4, LINE_LIST = 5, CUBE_LIST = 6, SPHERE_LIST = 7, POINTS = 8, ADD = 0, MODIFY = 0, DELETE = 2, DELETEALL = 3;',
}
def snake(n):
    out = ''
    for i, c in enumerate(n):
        if c.isupper() and i and (not n[i-1].isupper() or (i + 1 < len(n) and n[i+1].islower())):
            out += '_'
        out += c.lower()
    return {'tfmessage': 'tf_message', 'color_rgba': 'color_rgba', 'point_cloud2': 'point_cloud2', 'pose2_d': 'pose2d', 'u_int32': 'uint32'}.get(out, out)
def path(m):
    p, n = m.split('/')
    return f'{p}/msg/{snake(n)}.hpp'
def ctype(t):
    arr = ''
    if '[' in t:
        t, arr = t[:t.index('[')], t[t.index('['):]
    c = 'std::string' if t == 'string' else t
    if '/' in t:
        p, n = t.split('/')
        c = f'{p}::msg::{n}'
    if arr == '[]':
        return f'std::vector<{c}>'
    if arr:
        return f'std::array<{c}, {arr[1:-1]}>'
    return c
for m, fields in MSGS.items():
    p, n = m.split('/')
    inc = sorted({path(f[0].split('[')[0]) for f in fields if '/' in f[0]})
    g = f'SIM_ROS_{p}_{snake(n)}'.upper()
    s = f'// generated by gen_msgs.py\n#ifndef {g}\n#define {g}\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n'
    s += ''.join(f'#include <{i}>\n' for i in inc)
    s += f'namespace {p}\n{{\nnamespace msg\n{{\nstruct {n}\n{{\n'
    s += f'  using SharedPtr = std::shared_ptr<{n}>;\n  using ConstSharedPtr = std::shared_ptr<const {n}>;\n'
    s += f'  using UniquePtr = std::unique_ptr<{n}>;\n  using ConstUniquePtr = std::unique_ptr<const {n}>;\n  using WeakPtr = std::weak_ptr<{n}>;\n'
    if m in CONSTS:
        s += '  ' + CONSTS[m] + '\n'
    for t, f, d in fields:
        s += f'  {ctype(t)} {f}{{{d}}};\n'
        s += f'  {n} & set__{f}(const {ctype(t)} & v) {{{f} = v; return *this;}}\n'
    eq = ' && '.join(f'{f} == o.{f}' for _, f, _ in fields)
    s += f'  bool operator==(const {n} & o) const {{return {eq};}}\n  bool operator!=(const {n} & o) const {{return !(*this == o);}}\n'
    s += f'}};\n}}  // namespace msg\n}}  // namespace {p}\n#endif\n'
    os.makedirs(os.path.join(HERE, p, 'msg'), exist_ok=True)
    with open(os.path.join(HERE, path(m)), 'w') as fh:
        fh.write(s)
