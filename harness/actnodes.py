"""A root node that answers what it is told."""

import editnodes
from editnodes import BTNodeState, Err, FlowControl, NodeConfig, Ok, define_bt_node
from ros_bt_py.exceptions import BehaviorTreeException

PLAN = {}          # operation -> a state, ERR or RAISE
HOOKS = {}         # "make": called whenever a node is made, "do": called with the operation


class Boom(Exception):
    pass


def answer(k):
    if "do" in HOOKS:
        HOOKS["do"](k)
    r = PLAN.get(k, {"setup": "IDLE", "tick": "RUNNING", "untick": "IDLE", "reset": "IDLE", "shutdown": "SHUTDOWN"}[k])
    if callable(r):
        r = r()
    if r == "RAISE":
        raise Boom("told to raise")
    if r == "ERR":
        return Err(BehaviorTreeException("told to fail"))
    return Ok(getattr(BTNodeState, r))


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Act(editnodes.Quiet, FlowControl):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        if "make" in HOOKS:
            HOOKS["make"]()

    def _do_setup(self):
        super()._do_setup()
        return answer("setup")

    def _do_tick(self):
        super()._do_tick()
        return answer("tick")

    def _do_untick(self):
        super()._do_untick()
        return answer("untick")

    def _do_reset(self):
        super()._do_reset()
        return answer("reset")

    def _do_shutdown(self):
        super()._do_shutdown()
        return answer("shutdown")


def _call(k):
    plain = getattr(FlowControl, k)

    def call(self):
        return HOOKS["op"](self, k, lambda: plain(self)) if "op" in HOOKS else plain(self)
    return call


for _k in ("setup", "tick", "untick", "reset", "shutdown"):
    setattr(Act, _k, _call(_k))
