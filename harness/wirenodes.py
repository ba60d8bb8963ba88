"""Nodes with one input or one output; the classes are made by check_wiring."""

import boot

boot.load()

from ros_bt_py.helpers import BTNodeState  # noqa: E402
from ros_bt_py.node import Leaf  # noqa: E402
from ros_bt_py.vendor.result import Ok  # noqa: E402


class Wired(Leaf):
    """Writes what it is told to."""

    say = ()
    said = ""

    def clear(self):
        for m, k in ((self.node_config.inputs, "a"), (self.node_config.outputs, "o")):
            if k in m:
                m[k].reset_value()
                m[k].reset_updated()

    def _do_setup(self):
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        for v in self.say:
            r = self.outputs.set_value("o", v)
            self.said = "ok" if r.is_ok() else "err"
        return Ok(BTNodeState.SUCCEEDED)

    def _do_untick(self):
        return Ok(BTNodeState.IDLE)

    def _do_reset(self):
        return Ok(BTNodeState.IDLE)

    def _do_shutdown(self):
        return Ok(BTNodeState.SHUTDOWN)
