"""Makes the real ros_bt_py from /repo importable without a ROS installation."""

import importlib
import importlib.metadata as _md
import logging
import os
import pkgutil
import sys

_loaded = False
REPO = os.environ.get("VERIF_REPO", "/repo") + "/ros_bt_py"


def load(all_modules=False):
    """Import ros_bt_py from /repo; returns the package."""
    global _loaded
    if not _loaded:
        real_version = _md.version
        _md.version = lambda n: "1.0.0" if n == "ros_bt_py" else real_version(n)
        import rclpy.logging

        rclpy.logging.set_logger_level("", rclpy.logging.LoggingSeverity.FATAL)
        _quiet(rclpy)
        # ROS is not shutting down: otherwise a stopping command gives up on a tick thread that needs more than 0.4 s
        rclpy.ok = rclpy.utilities.ok = lambda *, context=None: True
        _loaded = True
    import ros_bt_py

    assert os.path.dirname(ros_bt_py.__file__) == REPO + "/ros_bt_py", ros_bt_py.__file__
    if all_modules:
        for m in pkgutil.walk_packages(ros_bt_py.__path__, "ros_bt_py."):
            if m.name in ("ros_bt_py.tree_node",):
                continue
            importlib.import_module(m.name)
    return ros_bt_py


_null = None


def null_logger():
    """Loggers write nowhere: their output is no part of any property."""
    global _null
    if _null is None:
        from rclpy.impl.rcutils_logger import RcutilsLogger

        class NullLogger(RcutilsLogger):
            def __init__(self):
                self.name = "null"

            def get_child(self, name):
                return self

            def __del__(self):
                pass

            def log(self, *a, **k):
                return True

            debug = info = warn = warning = error = fatal = log

        _null = NullLogger()
    return _null


def _quiet(rclpy):
    rclpy.logging.get_logger = lambda name: null_logger()


class Time:
    """Just what nodes use of rclpy's clock types."""


def make_ros_node():
    """An rclpy Node that is never connected to anything: clock and logger are controlled by the harness."""
    from rclpy.node import Node as ROSNode
    from rclpy.time import Time as RTime
    from rclpy.clock import ClockType

    class FakeRosNode(ROSNode):
        def __init__(self):  # deliberately no super().__init__
            self.nanos = 0
            self.null = null_logger()

        def __del__(self):
            pass

        def destroy_node(self):
            pass

        def get_logger(self):
            return self.null

        def get_name(self):
            return "fake"

        def get_clock(self):
            node = self

            class Clock:
                clock_type = ClockType.ROS_TIME

                def now(self):
                    return RTime(nanoseconds=node.nanos, clock_type=ClockType.ROS_TIME)

            return Clock()

    return FakeRosNode()
