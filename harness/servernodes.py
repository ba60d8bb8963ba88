"""Nodes of the trees that are served in check_server."""

import boot

boot.load()

from ros_bt_py.data_types import IntType  # noqa: E402
from ros_bt_py.exceptions import BehaviorTreeException  # noqa: E402
from ros_bt_py.helpers import BTNodeState  # noqa: E402
from ros_bt_py.node import FlowControl, Leaf, define_bt_node  # noqa: E402
from ros_bt_py.node_config import NodeConfig  # noqa: E402
from ros_bt_py.vendor.result import Err, Ok  # noqa: E402

ANSWER = ["RUNNING"]        # what the root answers when it is ticked


class Plain:
    def _do_setup(self):
        for c in self.children:
            if (r := c.setup()).is_err():
                return r
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        return Ok(BTNodeState.SUCCEEDED)

    def _do_untick(self):
        for c in self.children:
            c.untick()
        return Ok(BTNodeState.IDLE)

    def _do_reset(self):
        for c in self.children:
            c.reset()
        return Ok(BTNodeState.IDLE)

    def _do_shutdown(self):
        for c in self.children:
            c.shutdown()
        return Ok(BTNodeState.SHUTDOWN)


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Main(Plain, FlowControl):
    def _do_tick(self):
        for c in self.children:
            c.tick()
        if ANSWER[0] == "ERR":
            return Err(BehaviorTreeException("told to fail"))
        return Ok(getattr(BTNodeState, ANSWER[0]))


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
class Say(Plain, Leaf):
    def _do_tick(self):
        self.loginfo("said")
        return Ok(BTNodeState.SUCCEEDED)


@define_bt_node(NodeConfig(inputs={}, outputs={"x": IntType(allow_static=False)}, max_children=0))
class Give(Plain, Leaf):
    def _do_tick(self):
        self.outputs.set_value("x", 3)
        return Ok(BTNodeState.SUCCEEDED)


@define_bt_node(NodeConfig(inputs={"a": IntType(allow_static=False)}, outputs={}, max_children=0))
class Take(Plain, Leaf):
    pass
