"""C21: nodes that call or wait for services. See BTService."""

import rosfakes as F
import protocols as P
from common import THOROUGH
from ros_bt_py.ros_nodes import service as S
from std_msgs.msg import Int64, String


class Echo:
    Request = Int64
    Response = String


Echo.__module__ = "example_interfaces.srv._echo"    # as generated interfaces report it


class Driver:
    def __init__(self, cfg, rng):
        self.cfg, self.rng = cfg, rng
        self.w = w = F.World()
        self.reqs = []
        w.asked = self.asked
        w.created = w.leaving = lambda e: None
        self.ros = F.ros(w)
        self.kind = cfg["kind"]
        call = self.kind == "call"
        new = {"service_type": S.RosServiceType(interface_id=1, value=Echo),
               "wait_for_response_seconds" if call else "wait_for_service_seconds": S.FloatType(allow_dynamic=False, value=float(cfg["T"]))}
        self.node = (S.Service if call else S.WaitForService)(name="s", ros_node=self.ros, new_inputs=new)
        F.dynamic(self.node, ["service_name"] + (["data"] if call else []))
        self.on = self.ever = False

    def asked(self, client, request, future):
        self.reqs.append((client, request.data, future))
        self.w.calls.append({"c": "call" if client.alive else "dead", "i": len(self.reqs), "name": int(client.name[1:]), "val": request.data})

    def do(self, e):
        n, k, r = self.node, e["k"], ""
        if k in ("setup", "tick", "untick", "reset", "shutdown"):
            r = F.call(n, k)
            if k == "setup" and r == "IDLE":
                self.on = self.ever = True
                F.put(n, "service_name", f"n{e['name']}")
                if self.kind == "call":
                    F.put(n, "data", e["val"])
            elif k == "shutdown":
                self.on = False
        elif k == "name":
            F.put(n, "service_name", f"n{e['v']}")
        elif k == "val":
            F.put(n, "data", e["v"])
        elif k == "clock":
            self.ros.nanos += e["d"] * 10**9
        elif k == "ready":
            self.w.ready[f"n{e['v']}"] = bool(e["on"])
        elif k == "answer":
            client, val, f = self.reqs[e["i"] - 1]
            if client.alive and not f.done() and not f.cancelled():
                f.cancel() if e["v"] == "gone" else f.set_result(None if e["v"] == "none" else Echo.Response(data=str(val)))
        out = F.got(n, "data") if self.ever and self.kind == "call" else None
        return {"r": r, "calls": self.w.take(), "out": int(out or 0), "live": self.w.live()}


def choose(d, rng):
    if not d.on:
        return rng.choice([{"k": "setup", "name": rng.randint(1, 3), "val": rng.randint(1, 99)}] * 6 + [{"k": k} for k in ("tick", "untick", "reset", "shutdown")])
    es = [({"k": "tick"}, 8), ({"k": "untick"}, 0.7), ({"k": "reset"}, 0.4), ({"k": "shutdown"}, 0.2), ({"k": "setup", "name": 1, "val": 1}, 0.05),
          ({"k": "name", "v": rng.randint(1, 3)}, 0.3), ({"k": "clock", "d": rng.choice([1, 1, 2, 3, 7])}, 2)]
    if d.kind == "call":
        es.append(({"k": "val", "v": rng.randint(1, 99)}, 0.7))
    else:
        v = rng.randint(1, 3)
        es.append(({"k": "ready", "v": v, "on": 0 if d.w.ready.get(f"n{v}") else 1}, 1.5))
    for i, (client, val, f) in enumerate(d.reqs):
        if not f.done() and not f.cancelled() and len(d.reqs) - i < 4:
            es.append(({"k": "answer", "i": i + 1, "v": rng.choices(["ok", "gone", "none"], [15, 2, 0.3])[0]}, 1))
    return rng.choices([x[0] for x in es], [x[1] for x in es])[0]


def config(rng):
    return {"T": rng.choice([0, 1, 3, 6]), "kind": rng.choice(["call", "call", "wait"])}


def run(check):
    g, res = P.explore("ServiceMC", fresh=lambda s: not s["ready"])
    check.add(states=res.distinct, transitions=res.states)
    P.decide(check, "service", "service", g, lambda rng, s: Driver({"T": 1, "kind": s["kind"]}, rng), Driver, choose, config, "ServiceTrace",
             400 if THOROUGH else 60, 400 if THOROUGH else 40)
    check.assumptions += ["the service client is a stand-in that answers as rclpy's does; a destroyed client hears nothing",
                          "every answer names the request it belongs to (rclpy matches them by sequence number)"]
