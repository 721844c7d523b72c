#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include "pynode/py_node.hpp"

#include <cstdlib>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <rclcpp/rclcpp.hpp>

#include "lib/clouds.hpp"

namespace sim
{

namespace
{

PyObject * g_start, * g_receive, * g_fire;

void must(bool ok, const char * what)
{
  if (!ok) {
    fprintf(stderr, "python: %s\n", what);
    if (PyErr_Occurred()) {
      PyErr_Print();
    }
    _exit(3);
  }
}

struct Ref
{
  PyObject * p = nullptr;
  explicit Ref(PyObject * o) : p(o) {must(o != nullptr, "call failed");}
  ~Ref() {Py_XDECREF(p);}
  Ref(const Ref &) = delete;
};

// Python's own locks are no business of the scheduler.
struct Uninterrupted
{
  Fiber * f = W() ? W()->current : nullptr;
  int was = 0;
  Uninterrupted()
  {
    if (f) {
      was = f->preemptible;
      f->preemptible = 0;
    }
  }
  ~Uninterrupted()
  {
    if (f) {
      f->preemptible = was;
    }
  }
};

PyObject * item(PyObject * o, Py_ssize_t i)
{
  return PyList_Check(o) ? PyList_GetItem(o, i) : PyTuple_GetItem(o, i);
}
long long number(PyObject * o, Py_ssize_t i) {return PyLong_AsLongLong(item(o, i));}
std::string text(PyObject * o)
{
  Py_ssize_t n = 0;
  const char * s = PyUnicode_AsUTF8AndSize(o, &n);
  if (!s) {
    PyErr_Clear();
    return "?";
  }
  return std::string(s, n);
}

rclcpp::QoS qos(PyObject * q)
{
  rclcpp::QoS r(static_cast<size_t>(number(q, 1)));
  if (number(q, 0)) {
    r.keep_all();
  }
  number(q, 2) ? r.reliable() : r.best_effort();
  if (number(q, 3)) {
    r.transient_local();
  }
  return r;
}

class PyNode : public rclcpp::Node
{
public:
  PyNode(const std::string & name, PyObject * host)
  : Node(name), host_(host)
  {
    Py_INCREF(host_);
    Ref subs(PyObject_GetAttrString(host, "subs")), pubs(PyObject_GetAttrString(host, "pubs")),
      timers(PyObject_GetAttrString(host, "timers"));
    for (Py_ssize_t i = 0; i < PyList_Size(pubs.p); ++i) {
      PyObject * p = item(pubs.p, i);
      pubs_.push_back(create_publisher<CloudMsg>(text(item(p, 1)), qos(item(p, 2))));
    }
    for (Py_ssize_t i = 0; i < PyList_Size(subs.p); ++i) {
      PyObject * s = item(subs.p, i);
      subs_.push_back(
        create_subscription<CloudMsg>(
          text(item(s, 1)), qos(item(s, 2)),
          [this, i](CloudMsg::ConstSharedPtr m) {receive(i, *m);}));
    }
    for (Py_ssize_t i = 0; i < PyList_Size(timers.p); ++i) {
      const double s = PyFloat_AsDouble(item(item(timers.p, i), 1));
      timers_.push_back(
        create_wall_timer(
          std::chrono::nanoseconds(static_cast<i64>(s * 1e9)), [this, i] {fire(i);}));
    }
  }
  ~PyNode() override {Py_XDECREF(host_);}

private:
  void receive(Py_ssize_t i, const CloudMsg & m)
  {
    PyObject * result;
    {
      Uninterrupted u;
      Ref fields(PyList_New(0));
      for (const auto & f : m.fields) {
        Ref t(Py_BuildValue("(s#III)", f.name.data(), static_cast<Py_ssize_t>(f.name.size()),
          static_cast<unsigned>(f.offset), static_cast<unsigned>(f.datatype),
          static_cast<unsigned>(f.count)));
        PyList_Append(fields.p, t.p);
      }
      result = PyObject_CallFunction(
        g_receive, "OLniIs#IIOiIIy#i", host_, static_cast<long long>(now().nanoseconds()), i,
        static_cast<int>(m.header.stamp.sec), static_cast<unsigned>(m.header.stamp.nanosec),
        m.header.frame_id.data(), static_cast<Py_ssize_t>(m.header.frame_id.size()),
        static_cast<unsigned>(m.height), static_cast<unsigned>(m.width), fields.p,
        static_cast<int>(m.is_bigendian), static_cast<unsigned>(m.point_step),
        static_cast<unsigned>(m.row_step), m.data.empty() ? "" : reinterpret_cast<const char *>(m.data.data()),
        static_cast<Py_ssize_t>(m.data.size()), static_cast<int>(m.is_dense));
    }
    handle(result);
  }
  void fire(Py_ssize_t i)
  {
    PyObject * result;
    {
      Uninterrupted u;
      result = PyObject_CallFunction(
        g_fire, "OLn", host_, static_cast<long long>(now().nanoseconds()), i);
    }
    handle(result);
  }
  void handle(PyObject * r)
  {
    std::vector<std::pair<size_t, CloudMsg>> out;
    std::vector<std::pair<int, std::string>> logs;
    std::string error;
    {
      Uninterrupted u;
      Ref result(r);
      error = text(item(r, 2));
      PyObject * l = item(r, 1);
      for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) {
        logs.push_back({static_cast<int>(number(item(l, i), 0)), text(item(item(l, i), 2))});
      }
      l = item(r, 0);
      for (Py_ssize_t i = 0; i < PyList_Size(l); ++i) {
        PyObject * o = item(l, i);
        CloudMsg m;
        m.header.stamp.sec = static_cast<std::int32_t>(number(o, 1));
        m.header.stamp.nanosec = static_cast<std::uint32_t>(number(o, 2));
        m.header.frame_id = text(item(o, 3));
        m.height = static_cast<std::uint32_t>(number(o, 4));
        m.width = static_cast<std::uint32_t>(number(o, 5));
        for (Py_ssize_t k = 0; k < PyList_Size(item(o, 6)); ++k) {
          PyObject * f = item(item(o, 6), k);
          sensor_msgs::msg::PointField pf;
          pf.name = text(item(f, 0));
          pf.offset = static_cast<std::uint32_t>(number(f, 1));
          pf.datatype = static_cast<std::uint8_t>(number(f, 2));
          pf.count = static_cast<std::uint32_t>(number(f, 3));
          m.fields.push_back(pf);
        }
        m.is_bigendian = PyObject_IsTrue(item(o, 7));
        m.point_step = static_cast<std::uint32_t>(number(o, 8));
        m.row_step = static_cast<std::uint32_t>(number(o, 9));
        char * b = nullptr;
        Py_ssize_t n = 0;
        must(PyBytes_AsStringAndSize(item(o, 10), &b, &n) == 0, "data");
        m.data.assign(b, b + n);
        m.is_dense = PyObject_IsTrue(item(o, 11));
        out.push_back({static_cast<size_t>(number(o, 0)), m});
      }
    }
    for (const auto & [level, what] : logs) {
      W()->log(level, get_name(), what);
    }
    for (const auto & [i, m] : out) {
      pubs_.at(i)->publish(m);
    }
    if (!error.empty()) {
      throw std::runtime_error(error);
    }
  }
  PyObject * host_;
  std::vector<rclcpp::Publisher<CloudMsg>::SharedPtr> pubs_;
  std::vector<rclcpp::Subscription<CloudMsg>::SharedPtr> subs_;
  std::vector<rclcpp::TimerBase::SharedPtr> timers_;
};

}  // namespace

void py_begin()
{
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  PyConfig c;
  PyConfig_InitPythonConfig(&c);
  c.use_environment = 0;
  c.use_hash_seed = 1;
  c.hash_seed = 0;
  c.write_bytecode = 0;
  c.install_signal_handlers = 0;
  PyConfig_SetBytesString(&c, &c.executable, "/opt/veriftools/pyvenv/bin/python3");
  const PyStatus s = Py_InitializeFromConfig(&c);
  PyConfig_Clear(&c);
  must(!PyStatus_Exception(s), "no interpreter");
  PyRun_SimpleString("import sys; sys.path.insert(0, '" SIM_PY_DIR "')");
  Ref m(PyImport_ImportModule("simros"));
  g_start = PyObject_GetAttrString(m.p, "start");
  g_receive = PyObject_GetAttrString(m.p, "receive");
  g_fire = PyObject_GetAttrString(m.p, "fire");
  must(g_start && g_receive && g_fire, "simros");
}

int run_py(const std::string & package, const std::string & executable)
{
  rclcpp::init(0, static_cast<char **>(nullptr));
  std::shared_ptr<PyNode> node;
  std::string error;
  bool spinning = false;
  {
    Uninterrupted u;
    Ref params(PyDict_New());
    for (const auto & [k, v] : W()->current_process->params) {
      Ref value(PyUnicode_FromString(v.c_str()));
      PyDict_SetItemString(params.p, k.c_str(), value.p);
    }
    Ref r(PyObject_CallFunction(
        g_start, "sssO", SIM_REPO, package.c_str(), executable.c_str(), params.p));
    spinning = PyObject_IsTrue(item(r.p, 1));
    error = text(item(r.p, 2));
    if (spinning) {
      PyObject * host = item(r.p, 0);
      Ref nodes(PyObject_GetAttrString(host, "nodes"));
      must(PyList_Size(nodes.p) > 0, "spins without a node");
      Ref name(PyObject_GetAttrString(item(nodes.p, 0), "node_name"));
      node = std::make_shared<PyNode>(text(name.p), host);
    }
  }
  if (!error.empty()) {
    throw std::runtime_error(error);
  }
  if (spinning) {
    rclcpp::spin(node);
  }
  rclcpp::shutdown();
  return 0;
}

}  // namespace sim
