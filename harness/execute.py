"""The real tree manager, driven by execution commands; the tick loop only turns when it is told to."""

import copy
import threading
import time

import edit as E
import actnodes
import boot
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py_interfaces.srv import ControlTreeExecution as CT

Q = CT.Request
CODE = {"nothing": Q.DO_NOTHING, "once": Q.TICK_ONCE, "always": Q.TICK_PERIODICALLY, "until": Q.TICK_UNTIL_RESULT, "stop": Q.STOP,
        "reset": Q.RESET, "shutdown": Q.SHUTDOWN, "check": Q.SETUP_AND_SHUTDOWN, "unknown": 77}
KINDS = ("setup", "tick", "untick", "reset", "shutdown")


class Gate:
    """The rate of the tick loop."""

    def __init__(self):
        self.permits = 0
        self.sleeping = 0
        self.open = lambda: False

    def sleep(self):
        self.sleeping += 1
        while not self.permits and not self.open():
            time.sleep(0.0001)
        self.sleeping -= 1          # first of all: who is not asleep is not settled
        if self.permits:
            self.permits -= 1

    def destroy(self):
        pass


class Runner(E.Editor):
    def __init__(self, pool):
        self.gate = Gate()
        ros = boot.make_ros_node()
        ros.create_rate = lambda *a, **k: self.gate
        ros.create_timer = lambda *a, **k: None
        self.states = []
        self.pool = pool
        self.published = None
        self.m = TreeEditManager(ros_node=ros, publish_tree_structure_callback=self.take, publish_tree_state_callback=self.state_seen)
        self.gate.open = lambda: self.m.state == "STOP_REQUESTED" or self.closed
        self.closed = False
        self.num = {E.ZERO: 0}
        self.uid = {0: E.ZERO}
        self.log = []
        self.base = set(threading.enumerate())

    def state_seen(self, msg):
        own = [s.state for s in msg.tree_states if s.tree_id == str(E.ZERO)]
        self.states += own

    def root(self):
        r = [n for n in self.m.nodes.values() if n.parent is None]
        return r[0] if len(r) == 1 else None

    def root_state(self):
        r = [n for n in self.m.nodes.values() if n.parent is None]
        return "NONE" if not r else "MANY" if len(r) > 1 else str(r[0].state)

    def watch(self):
        """Logs what the root is asked for."""
        r = self.root()
        if r is None:
            return
        inside = []
        for k in KINDS:
            def f(k=k, g=getattr(r, k)):
                inside.append(k)
                try:
                    a = g()
                except Exception:
                    if len(inside) == 1:
                        self.log.append({"k": k, "r": "RAISE"})
                    raise
                else:
                    if len(inside) == 1:
                        s = str(a.unwrap()) if a.is_ok() else "KIDERR" if k == "shutdown" and str(r.state) == "SHUTDOWN" else "ERR"
                        self.log.append({"k": k, "r": s})
                    return a
                finally:
                    inside.pop()
            setattr(r, k, f)

    def settle(self):
        """Waits until the tick loop sleeps or has ended."""
        end = time.time() + 10
        while [t for t in threading.enumerate() if t not in self.base] and not (self.gate.sleeping and not self.gate.permits and not self.gate.open()):
            if time.time() > end:
                raise E.Hang
            time.sleep(0.00005)

    def command(self, c, hz=0.0):
        """(answer, tree state it names)"""
        self.log.clear()
        try:
            with E.contextlib.redirect_stdout(E.NOWHERE), E.limit(10):
                if c == "loop":
                    self.gate.permits += 1
                    self.settle()
                    return True, ""
                r = self.m.control_execution(CT.Request(command=CODE[c], tick_frequency_hz=hz), CT.Response())
                self.settle()
                return bool(r.success), r.tree_state
        except E.Hang:
            return "does not answer", ""
        except Exception as x:
            return "raises " + type(x).__name__ + ": " + str(x)[:100], ""

    def close(self):
        """Ends the tick loop."""
        actnodes.PLAN.clear()
        self.closed = True
        for _ in range(3):
            if self.m.state != "EDITABLE":
                self.command("shutdown")

    def all_states(self):
        return [str(n.state) for n in self.m.nodes.values()]
