"""C20: action nodes. See BTAction."""

import rosfakes as F
import protocols as P
from common import THOROUGH
from ros_bt_py.ros_nodes import action as A
from ros_bt_py.vendor.result import Ok
from action_msgs.msg import GoalStatus
from example_interfaces.action import Fibonacci
from std_msgs.msg import ColorRGBA, String

if hasattr(A, "ActionClient"):
    A.ActionClient = F.ActionClient


class Answer:
    def __init__(self, **kw):
        self.__dict__.update(kw)


BAD = ["abort", "canc", "none", "lost"]
STATUS = {"abort": [GoalStatus.STATUS_ABORTED, GoalStatus.STATUS_UNKNOWN], "canc": [GoalStatus.STATUS_CANCELED], "succ": [GoalStatus.STATUS_SUCCEEDED]}


class Driver:
    def __init__(self, cfg, rng):
        self.cfg, self.rng = cfg, rng
        self.w = F.World()
        self.w.server = lambda name: int(name[1:])
        self.ros = F.ros(self.w)
        new = {"action_type": A.RosActionType(interface_id=1, value=Fibonacci),
               "timeout_seconds": A.FloatType(allow_dynamic=False, value=float(cfg["T"]))}
        self.node = A.Action(name="a", ros_node=self.ros, new_inputs=new)
        F.dynamic(self.node, ["action_name", "data"])
        self.on = self.ever = False

    def waiting(self, g):
        """Whether the node may still ask for the answer to its cancellation."""
        return g.cancel is not None and not getattr(g, "dropped", False)

    def goal(self, i):
        return self.w.goals[i - 1]

    def do(self, e):
        n, k, r = self.node, e["k"], ""
        F.WORLD[0] = self.w
        if k in ("setup", "tick", "untick", "reset", "shutdown"):
            r = F.call(n, k)
            if k == "setup" and r == "IDLE":
                self.on = self.ever = True
                F.put(n, "action_name", f"n{e['name']}")
                F.put(n, "data", e["val"])
            elif k == "shutdown":
                self.on = False
        elif k in ("name", "val"):
            F.put(n, "action_name" if k == "name" else "data", f"n{e['v']}" if k == "name" else e["v"])
        elif k == "clock":
            self.ros.nanos += e["d"] * 10**9
        else:
            self.server(k, e)
        out = {x: F.got(n, y) for x, y in (("res", "result.data"), ("fb", "feedback.r"))}
        return {"r": r, "calls": self.w.take(), "out": {x: int(v or 0) if self.ever else 0 for x, v in out.items()}, "live": self.w.live()}

    def server(self, k, e):
        g = self.goal(e["i"])
        v = e["v"]
        if k == "answer":
            g.st = v
            if g.client.alive:
                if v == "lost":
                    g.answer.cancel()
                elif v == "rej" and self.rng.random() < 0.2:
                    g.answer.set_result(None)
                else:
                    g.answer.set_result(F.Handle(g))
        elif k == "feedback":
            if g.client.alive and g.feedback is not None:
                g.feedback(Answer(feedback=ColorRGBA(r=float(v))))
        elif k == "cancelled":
            if g.client.alive:
                g.cancel.cancel() if v == "lost" else g.cancel.set_result(Answer(return_code=0, goals_canceling=[]))
        elif k == "result":
            if v == "bad":
                v = self.rng.choice(BAD)
            g.st = "end"
            if v == "lost":
                g.pending = lambda f: f.cancel()
            elif v == "none":
                g.pending = lambda f: f.set_result(None)
            else:
                m = String(data=str(g.val))
                s = self.rng.choice(STATUS[v])
                g.pending = lambda f: f.set_result(Answer(status=s, result=m))
            g.tell()


def choose(d, rng):
    """A random event that can happen now."""
    if not d.on:
        return rng.choice([{"k": "setup", "name": rng.randint(1, 3), "val": rng.randint(1, 99)}] * 6 + [{"k": k} for k in ("tick", "untick", "reset", "shutdown")])
    es = [({"k": "tick"}, 8), ({"k": "untick"}, 0.7), ({"k": "reset"}, 0.4), ({"k": "shutdown"}, 0.2), ({"k": "setup", "name": 1, "val": 1}, 0.05),
          ({"k": "name", "v": rng.randint(1, 3)}, 0.3), ({"k": "val", "v": rng.randint(1, 99)}, 0.7), ({"k": "clock", "d": rng.choice([1, 1, 2, 3, 7])}, 2)]
    for g in d.w.goals:
        i = g.num
        if g.st == "sent":
            es.append(({"k": "answer", "i": i, "v": rng.choices(["acc", "rej", "lost"], [8, 2, 0.4])[0]}, 3))
        if i == len(d.w.goals) and g.st in ("acc", "ending") and g.answer.done():
            if g.st == "acc":
                es.append(({"k": "feedback", "i": i, "v": rng.randint(1, 99)}, 1.5))
            if g.result is not None and g.pending is None:
                es.append(({"k": "result", "i": i, "v": rng.choice(["succ", "succ", "succ", "abort", "canc", "none", "lost"])}, 1.5))
        if i == len(d.w.goals) and g.cancel is not None and g.client.alive and not g.cancel.done() and not g.cancel.cancelled() and d.waiting(g):
            es.append(({"k": "cancelled", "i": i, "v": rng.choices(["ok", "lost"], [9, 1])[0]}, 4))
    return rng.choices([x[0] for x in es], [x[1] for x in es])[0]


def config(rng):
    return {"T": rng.choice([0, 1, 3, 6])}


def run(check):
    g, res = P.explore("ActionMC")
    check.add(states=res.distinct, transitions=res.states)
    P.decide(check, "action", "action", g, lambda rng, s: Driver({"T": 1}, rng), Driver, choose, config, "ActionTrace", 400 if THOROUGH else 60, 400 if THOROUGH else 40)
    check.assumptions += ["the action client is a stand-in that answers as rclpy's does; a destroyed client hears nothing",
                          "feedback of a goal that was replaced is not sent after its replacement"]
