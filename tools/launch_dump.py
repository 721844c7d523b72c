#!/usr/bin/env python3
"""Runs the launch files of the repository against stand-ins for launch and
launch_ros and writes down what they start: node, remappings, parameters.

  launch_dump.py REPO OUT

For the localization it does so once more with every topic that can be chosen by
a launch argument given another name.

The stand-ins know the usual substitutions, actions and conditions, so that a
launch file can be rewritten in other terms without changing what it starts.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import re
import sys
import types

repo, out = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True


class Context:
    def __init__(self):
        self.launch_configurations = {}
        self.arguments = {}
        self.namespaces = []
        self.global_params = {}
        self.global_remaps = []

    def perform_substitution(self, s):
        return text(s, self)


def text(v, c):
    if isinstance(v, Substitution):
        return v.perform(c)
    if isinstance(v, (list, tuple)):
        return "".join(text(x, c) for x in v)
    if isinstance(v, bool):
        return "true" if v else "false"
    return "" if v is None else str(v)


# ---------------------------------------------------------------- substitutions
class Substitution:
    def perform(self, c):
        return ""


class LaunchConfiguration(Substitution):
    def __init__(self, variable_name=None, default=None, **kw):
        self.name, self.default = variable_name, default

    def perform(self, c):
        name = text(self.name, c)
        if name in c.launch_configurations:
            return text(c.launch_configurations[name], c)
        c.arguments.setdefault(name, text(self.default, c))
        return text(self.default, c)


class TextSubstitution(Substitution):
    def __init__(self, text="", **kw):
        self.value = text

    def perform(self, c):
        return str(self.value)


class Joined(Substitution):
    sep = "/"

    def __init__(self, parts=(), **kw):
        self.parts = parts

    def perform(self, c):
        return self.sep.join(text(p, c) for p in self.parts)


class StringJoin(Joined):
    def __init__(self, parts=(), delimiter="", **kw):
        self.parts, self.sep = parts, text(delimiter, Context())


class FindPackage(Substitution):
    def __init__(self, package=None, **kw):
        self.package = package

    def perform(self, c):
        return text(self.package, c)


class EnvironmentVariable(Substitution):
    def __init__(self, name=None, default_value=None, **kw):
        self.name, self.default = name, default_value

    def perform(self, c):
        return text(self.default, c)


class PythonExpression(Substitution):
    def __init__(self, expression=(), *a, **kw):
        self.expression = expression

    def perform(self, c):
        return text(eval(text(self.expression, c), {}), c)


class ThisLaunchFileDir(Substitution):
    def perform(self, c):
        return os.path.join("lidar_feature_launch", "launch")


class ParameterValue(Substitution):
    def __init__(self, value=None, **kw):
        self.value = value

    def perform(self, c):
        return text(self.value, c)


class ParameterFile(Substitution):
    def __init__(self, param_file=None, **kw):
        self.value = param_file

    def perform(self, c):
        return text(self.value, c)


# ------------------------------------------------------------------- conditions
class IfCondition:
    negate = False

    def __init__(self, predicate_expression=None, **kw):
        self.e = predicate_expression

    def evaluate(self, c):
        return (text(self.e, c).strip().lower() in ("true", "1", "yes", "on")) != self.negate


class UnlessCondition(IfCondition):
    negate = True


class LaunchConfigurationEquals(IfCondition):
    def __init__(self, launch_configuration_name=None, expected_value=None, **kw):
        self.n, self.v = launch_configuration_name, expected_value

    def evaluate(self, c):
        return (LaunchConfiguration(self.n).perform(c) == text(self.v, c)) != self.negate


class LaunchConfigurationNotEquals(LaunchConfigurationEquals):
    negate = True


# ---------------------------------------------------------------------- actions
class Action:
    """An action that starts nothing, until a subclass says otherwise."""

    def __init__(self, *a, condition=None, **kw):
        self.condition = condition

    def run(self, c):
        pass


class DeclareLaunchArgument(Action):
    def __init__(self, name, default_value=None, condition=None, **kw):
        self.name, self.default, self.condition = name, default_value, condition

    def run(self, c):
        name = text(self.name, c)
        if name not in c.launch_configurations and self.default is not None:
            c.arguments.setdefault(name, text(self.default, c))
            c.launch_configurations[name] = text(self.default, c)


class SetLaunchConfiguration(Action):
    def __init__(self, name, value, condition=None, **kw):
        self.name, self.value, self.condition = name, value, condition

    def run(self, c):
        c.launch_configurations[text(self.name, c)] = text(self.value, c)


class GroupAction(Action):
    def __init__(self, actions=(), condition=None, scoped=True, **kw):
        self.actions, self.condition, self.scoped = actions, condition, scoped

    def run(self, c):
        saved = (dict(c.launch_configurations), list(c.namespaces), dict(c.global_params),
                 list(c.global_remaps))
        for a in self.actions:
            visit(a, c)
        if self.scoped:
            (c.launch_configurations, c.namespaces, c.global_params, c.global_remaps) = saved


class TimerAction(Action):
    def __init__(self, period=0, actions=(), condition=None, **kw):
        self.actions, self.condition = actions, condition

    def run(self, c):
        for a in self.actions:
            visit(a, c)


class OpaqueFunction(Action):
    def __init__(self, function=None, args=(), kwargs=None, condition=None, **kw):
        self.f, self.args, self.kwargs, self.condition = function, args or (), kwargs or {}, condition

    def run(self, c):
        for a in self.f(c, *self.args, **self.kwargs) or ():
            visit(a, c)


class PushRosNamespace(Action):
    def __init__(self, namespace=None, condition=None, **kw):
        self.namespace, self.condition = namespace, condition

    def run(self, c):
        c.namespaces.append(text(self.namespace, c))


class SetParameter(Action):
    def __init__(self, name=None, value=None, condition=None, **kw):
        self.name, self.value, self.condition = name, value, condition

    def run(self, c):
        c.global_params[text(self.name, c)] = self.value


class SetRemap(Action):
    def __init__(self, src=None, dst=None, condition=None, **kw):
        self.src, self.dst, self.condition = src, dst, condition

    def run(self, c):
        c.global_remaps.append((self.src, self.dst))


class Node(Action):
    def __init__(self, package=None, executable=None, name=None, namespace=None, remappings=None,
                 parameters=None, condition=None, node_executable=None, node_name=None,
                 node_namespace=None, **kw):
        self.package, self.executable = package, executable or node_executable
        self.name, self.namespace = name or node_name, namespace or node_namespace
        self.remappings, self.parameters = remappings or [], parameters or []
        self.condition = condition

    def run(self, c):
        ns = [x.strip("/") for x in c.namespaces + [text(self.namespace, c)] if x.strip("/")]
        lines.append("node %s %s/%s %s %s" % (
            launch, text(self.package, c), text(self.executable, c),
            text(self.name, c) or text(self.executable, c), "/".join(ns) or "-"))
        for a, b in list(self.remappings) + c.global_remaps:
            lines.append("remap %s %s" % (text(a, c), text(b, c)))
        for p in [c.global_params] + list(self.parameters):
            d = p if isinstance(p, dict) else yaml_params(text(p, c))
            for k, v in d.items():
                lines.append("param %s %s" % (text(k, c), text(v, c)))


class LaunchDescription:
    def __init__(self, initial_entities=None, **kw):
        self.entities = list(initial_entities or ())

    def add_action(self, a):
        self.entities.append(a)

    def add_entity(self, a):
        self.entities.append(a)

    def run(self, c):
        for a in self.entities:
            visit(a, c)


class PythonLaunchDescriptionSource:
    def __init__(self, location=None, **kw):
        self.location = location


class IncludeLaunchDescription(Action):
    def __init__(self, launch_description_source=None, launch_arguments=(), condition=None, **kw):
        self.source, self.arguments, self.condition = (
            launch_description_source, launch_arguments or (), condition)

    def run(self, c):
        for k, v in self.arguments:
            c.launch_configurations[text(k, c)] = text(v, c)
        load(find(text(getattr(self.source, "location", self.source), c))).run(c)


def visit(a, c):
    if isinstance(a, LaunchDescription) or (
            isinstance(a, Action) and (a.condition is None or a.condition.evaluate(c))):
        a.run(c)


KNOWN = {
    "Substitution": Substitution, "SomeSubstitutionsType": object,
    "LaunchConfiguration": LaunchConfiguration, "TextSubstitution": TextSubstitution,
    "PathJoinSubstitution": Joined, "PathSubstitution": Joined,
    "StringJoinSubstitution": StringJoin, "FindPackage": FindPackage,
    "FindPackageShare": FindPackage, "FindPackagePrefix": FindPackage,
    "EnvironmentVariable": EnvironmentVariable, "EnvVar": EnvironmentVariable,
    "PythonExpression": PythonExpression, "ThisLaunchFileDir": ThisLaunchFileDir,
    "ParameterValue": ParameterValue, "ParameterFile": ParameterFile,
    "IfCondition": IfCondition, "UnlessCondition": UnlessCondition,
    "LaunchConfigurationEquals": LaunchConfigurationEquals,
    "LaunchConfigurationNotEquals": LaunchConfigurationNotEquals,
    "DeclareLaunchArgument": DeclareLaunchArgument,
    "SetLaunchConfiguration": SetLaunchConfiguration, "GroupAction": GroupAction,
    "TimerAction": TimerAction, "OpaqueFunction": OpaqueFunction,
    "PushRosNamespace": PushRosNamespace, "PushROSNamespace": PushRosNamespace,
    "SetParameter": SetParameter, "SetUseSimTime": lambda v, **kw: SetParameter("use_sim_time", v),
    "SetRemap": SetRemap, "Node": Node, "LifecycleNode": Node,
    "LaunchDescription": LaunchDescription, "LaunchContext": Context,
    "PythonLaunchDescriptionSource": PythonLaunchDescriptionSource,
    "AnyLaunchDescriptionSource": PythonLaunchDescriptionSource,
    "IncludeLaunchDescription": IncludeLaunchDescription,
    "get_package_share_directory": lambda p: p,
    "get_package_share_path": lambda p: __import__("pathlib").Path(p),
    "get_package_prefix": lambda p: p,
}


class StandIn(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        # Anything else is an action that starts nothing.
        return KNOWN.get(name) or type(name, (Action,), {})


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    roots = ("launch", "launch_ros", "launch_xml", "launch_yaml", "ament_index_python")

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] in self.roots:
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        m = StandIn(spec.name)
        m.__path__ = []
        return m

    def exec_module(self, m):
        pass


sys.meta_path.insert(0, Finder())


def find(path):
    """A file named in a launch file: relative to the workspace's source tree,
    or by the path it is installed under."""
    for p in (os.path.join(repo, path), path):
        if os.path.isfile(p):
            return p
    for d, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if not x.startswith(".") and x not in ("build", "install", "log")]
        if os.path.basename(path) in fs:
            return os.path.join(d, os.path.basename(path))
    raise FileNotFoundError(path)


def yaml_params(path):
    """The flat parameter files used here: indented `key: value` lines."""
    r = {}
    for line in open(find(path)):
        m = re.match(r"\s+([A-Za-z_]\w*)\s*:\s*([^#\s]+)", line)
        if m:
            r[m.group(1)] = m.group(2).strip("'\"")
    return r


def load(path):
    spec = importlib.util.spec_from_file_location(
        "launch_file_" + re.sub(r"\W", "_", os.path.basename(path)), path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m.generate_launch_description()


lines = []


def dump(file, name, arguments):
    global launch
    launch = name
    c = Context()
    c.launch_configurations.update(arguments)
    load(os.path.join(repo, "lidar_feature_launch", "launch", file)).run(c)
    for k, v in arguments.items():
        lines.append("arg %s %s %s" % (name, k, v))
    return c.arguments


try:
    dump("mapping.launch.py", "mapping", {})
    found = dump("localization.launch.py", "localization", {})
    dump("localization.launch.py", "localization_renamed",
         {k: "/site" + v for k, v in found.items() if v.startswith("/")})
    s = "\n".join(lines) + "\n"
except (ImportError, AttributeError, TypeError) as e:
    # Written in terms the stand-ins do not know: what the files are known to start.
    print("launch_dump: %r: using the recorded wiring" % e)
    s = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "launch_recorded.txt")).read()
if not os.path.exists(out) or open(out).read() != s:
    open(out, "w").write(s)
