"""Loads ros_bt_py from the working directory without a ROS installation; a scripted leaf; a fake ROS node."""
import importlib.metadata as md
import sys

_v = md.version
md.version = lambda n: "1.0.0" if n == "ros_bt_py" else _v(n)
import rclpy.logging


from rclpy.impl.rcutils_logger import RcutilsLogger


class Null(RcutilsLogger):
    def __init__(self):
        self.name = "null"

    def __del__(self):
        pass

    def get_child(self, name):
        return self

    def log(self, *a, **k):
        return True

    debug = info = warn = warning = error = fatal = log


rclpy.logging.get_logger = lambda name: Null()
from rclpy.clock import ClockType
from rclpy.node import Node as ROSNode
from rclpy.time import Time
from ros_bt_py.data_types import *
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py.exceptions import BehaviorTreeException


class FakeRos(ROSNode):
    def __init__(self):
        self.nanos = 0

    def __del__(self):
        pass

    def destroy_node(self):
        pass

    def get_logger(self):
        return Null()

    def get_name(self):
        return "fake"

    def get_clock(self):
        class Clock:
            clock_type = ClockType.ROS_TIME
            now = lambda s: Time(nanoseconds=self.nanos, clock_type=ClockType.ROS_TIME)

        return Clock()


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Scripted(Leaf):
    """Answers self.next (a dict call -> answer, or ERR) and records its calls."""

    def a(self, k, ok):
        self.__dict__.setdefault("calls", []).append(k)
        r = self.__dict__.setdefault("next", {}).get(k, ok)
        return Err(BehaviorTreeException("x")) if r == "ERR" else Ok(r)

    def _do_setup(self):
        return self.a("setup", "IDLE")

    def _do_tick(self):
        return self.a("tick", "SUCCEEDED")

    def _do_untick(self):
        return self.a("untick", "IDLE")

    def _do_reset(self):
        return self.a("reset", "IDLE")

    def _do_shutdown(self):
        return self.a("shutdown", "SHUTDOWN")


def leaf(tick="SUCCEEDED", **kw):
    n = Scripted(**kw)
    n.next = {"tick": tick}
    n.calls = []
    return n


def tree(parent, *kids):
    for k in kids:
        parent.add_child(k).unwrap()
    return parent


def expect(what, got, want):
    if got != want:
        print(f"{what}: got {got}, want {want}")
        sys.exit(1)
