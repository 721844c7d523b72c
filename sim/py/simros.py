"""rclpy for nodes that the simulator runs: records what a node asks for.

start() runs the entry point of a package up to the point where it would spin;
the simulator then makes the subscriptions, and calls back with messages.
Whatever a callback publishes or logs is handed back when it returns.
"""
import array
import ast
import importlib.abc
import importlib.machinery
import os
import re
import sys
import types

sys.dont_write_bytecode = True
host = None           # what the running process has asked for


class Spin(BaseException):
    """The node has nothing more to do until something arrives."""


class Host:
    def __init__(self, params):
        self.params = params
        self.clock = 0
        self.subs, self.pubs, self.timers, self.nodes = [], [], [], []
        self.out, self.logs = [], []
        self.up = False


# ---------------------------------------------------------------- messages
def module(name, **content):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(content)
    sys.modules[name] = m
    if "." in name:
        setattr(sys.modules[name.rpartition(".")[0]], name.rpartition(".")[2], m)
    return m


def integer(bits, signed=False):
    lo = -(1 << (bits - 1)) if signed else 0
    hi = lo + (1 << bits)

    def check(v):
        assert isinstance(v, int), "must be of type 'int'"
        assert lo <= v < hi, "must be an integer in [%d, %d]" % (lo, hi - 1)
        return v
    return check


def instance(t):
    def check(v):
        assert isinstance(v, t), "must be of type '%s'" % t.__name__
        return v
    return check


def sequence(t):
    def check(v):
        assert isinstance(v, (list, tuple, set)) or hasattr(v, "__getitem__") and not isinstance(v, str)
        v = list(v)
        assert all(isinstance(x, t) for x in v), "must be a sequence of '%s'" % t.__name__
        return v
    return check


def octets(v):
    if isinstance(v, array.array):
        assert v.typecode == "B", "must have array.array() with type code of 'B'"
        return v
    assert isinstance(v, (bytes, bytearray, list, tuple, set)) or (
        hasattr(v, "__getitem__") and not isinstance(v, (str, memoryview)))
    v = list(v)
    assert all(isinstance(x, int) and 0 <= x < 256 for x in v)
    return array.array("B", v)


class Message:
    _slots = {}

    def __init__(self, **kwargs):
        for k in kwargs:
            assert k in self._slots, "Invalid arguments passed to constructor: " + k
        for k, (default, _) in self._slots.items():
            setattr(self, k, kwargs[k] if k in kwargs else default())

    def __setattr__(self, k, v):
        if k not in self._slots:
            raise AttributeError("'%s' object has no attribute '%s'" % (type(self).__name__, k))
        object.__setattr__(self, k, self._slots[k][1](v))

    def __eq__(self, o):
        return type(o) is type(self) and all(getattr(self, k) == getattr(o, k) for k in self._slots)

    __hash__ = None

    @classmethod
    def get_fields_and_field_types(cls):
        return {k: "" for k in cls._slots}


class Time(Message):
    _slots = {"sec": (int, integer(32, True)), "nanosec": (int, integer(32))}


class Header(Message):
    _slots = {"stamp": (Time, instance(Time)), "frame_id": (str, instance(str))}


class PointField(Message):
    INT8, UINT8, INT16, UINT16, INT32, UINT32, FLOAT32, FLOAT64 = range(1, 9)
    _slots = {"name": (str, instance(str)), "offset": (int, integer(32)),
              "datatype": (int, integer(8)), "count": (int, integer(32))}


class PointCloud2(Message):
    _slots = {"header": (Header, instance(Header)), "height": (int, integer(32)),
              "width": (int, integer(32)), "fields": (list, sequence(PointField)),
              "is_bigendian": (bool, instance(bool)), "point_step": (int, integer(32)),
              "row_step": (int, integer(32)), "data": (lambda: array.array("B"), octets),
              "is_dense": (bool, instance(bool))}


# ---------------------------------------------------------------- qos
class Policy(int):
    """A member of an enumeration under its long and its short name."""


def policies(name, **members):
    return type(name, (), {k: Policy(v) for k, v in members.items()})


HistoryPolicy = policies("HistoryPolicy", SYSTEM_DEFAULT=0, KEEP_LAST=1, KEEP_ALL=2)
ReliabilityPolicy = policies("ReliabilityPolicy", SYSTEM_DEFAULT=0, RELIABLE=1, BEST_EFFORT=2)
DurabilityPolicy = policies("DurabilityPolicy", SYSTEM_DEFAULT=0, TRANSIENT_LOCAL=1, VOLATILE=2)
LivelinessPolicy = policies("LivelinessPolicy", SYSTEM_DEFAULT=0, AUTOMATIC=1, MANUAL_BY_TOPIC=3)


class InvalidQoSProfileException(Exception):
    pass


class QoSProfile:
    def __init__(self, *, history=None, depth=None, reliability=HistoryPolicy.SYSTEM_DEFAULT,
                 durability=DurabilityPolicy.SYSTEM_DEFAULT, **_):
        if history is None:
            if depth is None:
                raise InvalidQoSProfileException("History and/or depth settings are required.")
            history = HistoryPolicy.KEEP_LAST
        if history == HistoryPolicy.KEEP_LAST and depth is None:
            raise InvalidQoSProfileException(
                "History set to KEEP_LAST without a depth setting.")
        self.history, self.depth = history, depth or 0
        self.reliability, self.durability = reliability, durability

    def tuple(self):
        return (self.history == HistoryPolicy.KEEP_ALL, max(1, self.depth),
                self.reliability != ReliabilityPolicy.BEST_EFFORT,
                self.durability == DurabilityPolicy.TRANSIENT_LOCAL)


def qos_of(q):
    return q if isinstance(q, QoSProfile) else QoSProfile(depth=int(q))


# ---------------------------------------------------------------- nodes
def log_at(level):
    def log(self, message, **_):
        host.logs.append((level, self.name, str(message)))
        return True
    return log


class Logger:
    def __init__(self, name):
        self.name = name

    debug, info, warn, error, fatal = map(log_at, range(5))
    warning = warn

    def get_child(self, name):
        return Logger(self.name + "." + name)

    def set_level(self, _):
        pass


class RosTime:
    def __init__(self, *, seconds=0, nanoseconds=0, **_):
        self.nanoseconds = int(seconds * 10**9) + nanoseconds

    def to_msg(self):
        return Time(sec=self.nanoseconds // 10**9, nanosec=self.nanoseconds % 10**9)

    @staticmethod
    def from_msg(m, **_):
        return RosTime(seconds=m.sec, nanoseconds=m.nanosec)


class Clock:
    def now(self):
        return RosTime(nanoseconds=host.clock)


class Parameter:
    def __init__(self, name, value):
        self.name, self.value = name, value

    def get_parameter_value(self):
        return types.SimpleNamespace(
            string_value=self.value, bool_value=self.value, integer_value=self.value,
            double_value=self.value)


class Publisher:
    def __init__(self, index):
        self.index = index

    def publish(self, m):
        if not isinstance(m, PointCloud2):
            raise TypeError("Expected PointCloud2, got " + type(m).__name__)
        # as it is at this moment
        host.out.append((
            self.index, m.header.stamp.sec, m.header.stamp.nanosec, m.header.frame_id, m.height,
            m.width, [(f.name, f.offset, f.datatype, f.count) for f in m.fields], m.is_bigendian,
            m.point_step, m.row_step, m.data.tobytes(), m.is_dense))


class Timer:
    def __init__(self, callback):
        self.callback, self.canceled = callback, False

    def cancel(self):
        self.canceled = True


class Node:
    def __init__(self, node_name, *, context=None, namespace=None, **_):
        assert host.up, "rclpy.init() has not been called"
        self.node_name = node_name
        self.declared = {}
        host.nodes.append(self)

    def get_name(self):
        return self.node_name

    def get_logger(self):
        return Logger(self.node_name)

    def get_clock(self):
        return Clock()

    def declare_parameter(self, name, value=None, *_, **__):
        if name in host.params:
            try:
                value = ast.literal_eval(host.params[name])
            except (ValueError, SyntaxError):
                value = host.params[name]
        self.declared[name] = Parameter(name, value)
        return self.declared[name]

    def has_parameter(self, name):
        return name in self.declared

    def get_parameter(self, name):
        return self.declared[name]

    def create_subscription(self, msg_type, topic, callback, qos_profile, **_):
        assert msg_type is PointCloud2
        host.subs.append((self.node_name, topic, qos_of(qos_profile).tuple(), callback))
        return object()

    def create_publisher(self, msg_type, topic, qos_profile, **_):
        assert msg_type is PointCloud2
        host.pubs.append((self.node_name, topic, qos_of(qos_profile).tuple()))
        return Publisher(len(host.pubs) - 1)

    def create_timer(self, timer_period_sec, callback, **_):
        t = Timer(callback)
        host.timers.append((self.node_name, float(timer_period_sec), t))
        return t

    def destroy_node(self):
        return True

    def __enter__(self):
        return self

    def __exit__(self, *_):
        return None


class ExternalShutdownException(Exception):
    pass


class Executor:
    def __init__(self, *_, **__):
        pass

    def add_node(self, _):
        return True

    def remove_node(self, _):
        pass

    def shutdown(self, *_, **__):
        return True

    def spin(self):
        raise Spin()


def init(*_, **__):
    host.up = True
    return types.SimpleNamespace(__enter__=None)


def shutdown(*_, **__):
    host.up = False


def spin(*_, **__):
    raise Spin()


def spin_forever(*_, **__):
    raise Spin()


module("builtin_interfaces")
module("builtin_interfaces.msg", Time=Time)
module("std_msgs")
module("std_msgs.msg", Header=Header)
module("sensor_msgs")
module("sensor_msgs.msg", PointCloud2=PointCloud2, PointField=PointField)
module("rclpy", init=init, shutdown=shutdown, try_shutdown=shutdown, spin=spin,
       spin_once=spin_forever, ok=lambda *_, **__: host.up,
       create_node=lambda name, **k: Node(name, **k))
module("rclpy.node", Node=Node)
module("rclpy.executors", SingleThreadedExecutor=Executor, MultiThreadedExecutor=Executor,
       Executor=Executor, ExternalShutdownException=ExternalShutdownException)
module("rclpy.callback_groups", ReentrantCallbackGroup=object, MutuallyExclusiveCallbackGroup=object)
module("rclpy.logging", get_logger=Logger)
module("rclpy.time", Time=RosTime)
module("rclpy.parameter", Parameter=Parameter)
module("rclpy.exceptions", InvalidQoSProfileException=InvalidQoSProfileException)
module("rclpy.qos", QoSProfile=QoSProfile, HistoryPolicy=HistoryPolicy,
       QoSHistoryPolicy=HistoryPolicy, ReliabilityPolicy=ReliabilityPolicy,
       QoSReliabilityPolicy=ReliabilityPolicy, DurabilityPolicy=DurabilityPolicy,
       QoSDurabilityPolicy=DurabilityPolicy, LivelinessPolicy=LivelinessPolicy,
       QoSLivelinessPolicy=LivelinessPolicy, InvalidQoSProfileException=InvalidQoSProfileException,
       qos_profile_sensor_data=QoSProfile(
           history=HistoryPolicy.KEEP_LAST, depth=5, reliability=ReliabilityPolicy.BEST_EFFORT),
       qos_profile_system_default=QoSProfile(history=HistoryPolicy.KEEP_LAST, depth=10))
import numpy  # noqa: F401, E402  before any simulation


# ---------------------------------------------------------------- processes
class Package(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """Loads a package of the code under test afresh for every process."""

    def __init__(self, name, directory):
        self.name, self.directory, self.code = name, directory, {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname != self.name and not fullname.startswith(self.name + "."):
            return None
        base = os.path.join(self.directory, *fullname.split("."))
        if os.path.isdir(base):
            f, pkg = os.path.join(base, "__init__.py"), True
        else:
            f, pkg = base + ".py", False
        if not os.path.exists(f):
            return None
        if f not in self.code:
            with open(f) as text:
                self.code[f] = compile(text.read(), f, "exec")
        return importlib.machinery.ModuleSpec(fullname, self, origin=f, is_package=pkg)

    def create_module(self, spec):
        return None

    def exec_module(self, m):
        m.__file__ = m.__spec__.origin
        exec(self.code[m.__spec__.origin], m.__dict__)


packages = {}


def start(repo, package, executable, params):
    """The Host of a new process; its entry point has been run up to its spin."""
    global host
    host = Host(dict(params))
    if package not in packages:
        directory = os.path.join(repo, package)
        with open(os.path.join(directory, "setup.py")) as f:
            setup = f.read()
        packages[package] = Package(package, directory)
        packages[package].entry = re.search(
            r"['\"]%s\s*=\s*([\w.]+)\s*:\s*(\w+)" % re.escape(executable), setup).groups()
        sys.meta_path.insert(0, packages[package])
    for m in [m for m in sys.modules if m == package or m.startswith(package + ".")]:
        del sys.modules[m]
    m, f = packages[package].entry
    __import__(m)
    spinning = False
    try:
        getattr(sys.modules[m], f)()
    except Spin:
        spinning = True
    except BaseException as e:
        return host, False, describe(e)
    return host, spinning, ""


def describe(e):
    return "%s: %s" % (type(e).__name__, str(e)[:300])


def call(h, clock, f, *args):
    """What it published, what it logged, and how it failed."""
    global host
    host = h
    h.clock = clock
    h.out, h.logs = [], []
    error = ""
    try:
        f(*args)
    except BaseException as e:
        error = describe(e) or "an exception"
    return h.out, h.logs, error


def receive(h, clock, index, sec, nanosec, frame, height, width, fields, big, step, row, data, dense):
    m = PointCloud2(
        header=Header(stamp=Time(sec=sec, nanosec=nanosec), frame_id=frame), height=height,
        width=width, fields=[PointField(name=n, offset=o, datatype=t, count=c)
                             for n, o, t, c in fields],
        is_bigendian=bool(big), point_step=step, row_step=row, data=array.array("B", data),
        is_dense=bool(dense))
    return call(h, clock, h.subs[index][3], m)


def fire(h, clock, index):
    t = h.timers[index][2]
    if t.canceled:
        return [], [], ""
    return call(h, clock, t.callback)
