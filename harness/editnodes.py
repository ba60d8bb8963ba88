"""Node classes to edit trees of: inner nodes with every child limit and leaves whose inputs and outputs depend on options."""

import boot

boot.load()

from ros_bt_py.data_types import FloatType, IntType, StringType  # noqa: E402
from ros_bt_py.exceptions import NodeConfigError  # noqa: E402
from ros_bt_py.helpers import BTNodeState  # noqa: E402
from ros_bt_py.node import Decorator, FlowControl, Leaf, Node, define_bt_node  # noqa: E402
from ros_bt_py.node_config import NodeConfig  # noqa: E402
from ros_bt_py.vendor.result import Err, Ok  # noqa: E402


class Quiet:
    def _do_setup(self):
        for c in self.children:
            r = c.setup()
            if r.is_err():
                return r
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        for c in self.children:
            c.tick()
        return Ok(BTNodeState.SUCCEEDED)

    def _do_untick(self):
        for c in self.children:
            c.untick()
        return Ok(BTNodeState.IDLE)

    def _do_reset(self):
        for c in self.children:
            c.reset()
        return Ok(BTNodeState.IDLE)

    def _do_shutdown(self):
        for c in self.children:
            c.shutdown()
        return Ok(BTNodeState.SHUTDOWN)


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Flow(Quiet, FlowControl):
    pass


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=2))
class Pair(Quiet, Node):
    pass


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=1))
class Deco(Quiet, Decorator):
    pass


@define_bt_node(NodeConfig(inputs={"kind": StringType(allow_dynamic=False), "n": IntType(allow_dynamic=False)}, outputs={}, max_children=0))
class Item(Quiet, Leaf):
    """Has an input a and an output o of the kind asked for."""

    def extra(self, key):
        k = self.inputs.get_value_as("kind", str).unwrap_or("")
        t = {"int": IntType, "str": StringType, "float": FloatType}.get(k)
        if t is None:
            return Err(NodeConfigError(f"no such kind {k}"))
        return Ok({key: t(allow_static=False)})

    def add_extra_inputs(self):
        return self.extra("a")

    def add_extra_outputs(self):
        return self.extra("o")


@define_bt_node(NodeConfig(inputs={"a": StringType(allow_static=False)}, outputs={"p": IntType(), "q": StringType()}, max_children=None))
class Mix(Quiet, FlowControl):
    """Data and children."""
