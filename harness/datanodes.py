"""Nodes that write what a script says, and tell what they see."""

import boot

boot.load()

from ros_bt_py.data_types import BoolType, DictType, FloatType, IntType, ListType, PathType, StringType  # noqa: E402
from ros_bt_py.exceptions import BehaviorTreeException, NodeConfigError  # noqa: E402
from ros_bt_py.helpers import BTNodeState  # noqa: E402
from ros_bt_py.node import FlowControl, Leaf, define_bt_node  # noqa: E402
from ros_bt_py.node_config import NodeConfig  # noqa: E402
from ros_bt_py.vendor.result import Err, Ok  # noqa: E402

TYPES = {"int": IntType, "str": StringType, "float": FloatType, "bool": BoolType, "path": PathType,
         "list": lambda **k: ListType(element_type=IntType(), **k), "strings": lambda **k: ListType(element_type=StringType(), **k),
         "lists": lambda **k: ListType(element_type=ListType(element_type=IntType()), **k), "dict": lambda **k: DictType(element_type=IntType(), **k)}
VALUES = {"int": [0, 1, -1], "str": ["", "a", "0"], "float": [0.0, 1.0, 0.5], "bool": [False, True], "path": ["file:///a", "package://p/a"],
          "list": [[], [0], [0, 1]], "strings": [[], [""], ["a", "b"]], "lists": [[], [[]], [[1], [2]]], "dict": [{}, {"a": 0}, {"a": 0, "b": 1}]}
DRIVER = [None]      # who says what the nodes do


class Data:
    """The inputs and outputs are listed in options: "a:int b:str"."""

    def slots(self, key):
        m = {}
        for x in self.inputs.get_value_as(key, str).unwrap_or("").split():
            k, t = x.split(":")
            if t not in TYPES:
                return Err(NodeConfigError(x))
            m[k] = TYPES[t](allow_static=False)
        return Ok(m)

    def add_extra_inputs(self):
        return self.slots("takes")

    def add_extra_outputs(self):
        return self.slots("gives")

    def _do_setup(self):
        for c in self.children:
            if (r := c.setup()).is_err():
                return r
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        return DRIVER[0].inside(self)

    def _do_untick(self):
        for c in self.children:
            c.untick()
        return Ok(BTNodeState.IDLE)

    def _do_reset(self):
        for c in self.children:
            c.reset()
        return Ok(BTNodeState.IDLE)

    def _do_shutdown(self):
        return Ok(BTNodeState.SHUTDOWN)


IO = dict(takes=StringType(allow_dynamic=False), gives=StringType(allow_dynamic=False))


@define_bt_node(NodeConfig(inputs=dict(IO), outputs={}, max_children=None))
class DataFlow(Data, FlowControl):
    pass


@define_bt_node(NodeConfig(inputs=dict(IO), outputs={}, max_children=0))
class DataLeaf(Data, Leaf):
    pass


ERROR = Err(BehaviorTreeException("scripted"))
