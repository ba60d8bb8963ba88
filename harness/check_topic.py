"""C22: nodes that subscribe and publish. See BTTopic."""

import threading

import rosfakes as F
import protocols as P
from common import THOROUGH
from ros_bt_py.ros_nodes import topic as T
from rclpy.qos import QoSDurabilityPolicy as Dur, QoSReliabilityPolicy as Rel
from std_msgs.msg import Int64

CONFS = [("t1", True, False, 1), ("t2", True, False, 1), ("t1", False, False, 1), ("t1", True, True, 1), ("t1", True, False, 5), ("t2", False, True, 3)]
KEYS = ["topic_name", "reliable", "transient_local", "depth"]
CLS = {"sub": "TopicSubscriber", "mem": "TopicMemorySubscriber", "pub": "TopicPublisher"}


class Driver:
    def __init__(self, cfg, rng):
        self.cfg, self.rng, self.kind = cfg, rng, cfg["kind"]
        self.confs = cfg.get("confs") or list(range(len(CONFS)))
        self.w = w = F.World()
        w.created, w.leaving, w.published = self.created, self.leaving, self.published
        self.ros = F.ros(w)
        new = {"topic_type": T.RosTopicType(interface_id=1, value=Int64)}
        if self.kind == "mem":
            new["memory_delay"] = T.FloatType(allow_dynamic=False, value=float(cfg["T"]))
        if self.kind == "pub":
            new["message"] = T.ReferenceType(reference="topic_type", is_static=False)
            new["message"].set_type_map({"topic_type": new["topic_type"]}).unwrap()
        self.node = getattr(T, CLS[self.kind])(name="t", ros_node=self.ros, new_inputs=new)
        F.dynamic(self.node, KEYS)
        self.on = self.ever = False
        self.g = self.m = 0

    def number(self, e):
        q = e.qos
        c = (e.name, q.reliability == Rel.RELIABLE, q.durability == Dur.TRANSIENT_LOCAL, q.depth)
        if q.reliability not in (Rel.RELIABLE, Rel.BEST_EFFORT) or q.durability not in (Dur.TRANSIENT_LOCAL, Dur.VOLATILE) or e.type is not Int64:
            return 0
        return next((i + 1 for i, x in enumerate(self.confs) if CONFS[x] == c), 0)

    def created(self, e):
        self.w.calls.append({"c": "make", "i": e.num, "conf": self.number(e), "val": 0})
        if self.m and e.kind == "sub":
            self.arrive(e, self.m)

    def leaving(self, e):
        if self.g and e.kind == "sub":
            self.arrive(e, self.g)

    def published(self, e, msg):
        self.w.calls.append({"c": "publish" if e.alive else "dead", "i": e.num, "conf": 0, "val": msg.data if isinstance(msg, Int64) else -1})

    def arrive(self, e, v):
        """Messages arrive in other threads."""
        t = threading.Thread(target=e.callback, args=(Int64(data=v),), daemon=True)
        t.start()
        t.join(1)

    def conf(self, i):
        for k, v in zip(KEYS, CONFS[self.confs[i - 1]]):
            F.put(self.node, k, v)

    def value(self, v):
        F.put(self.node, "message", Int64(data=v))

    def do(self, e):
        n, k, r = self.node, e["k"], ""
        self.g, self.m = e.get("g", 0), e.get("m", 0)
        if k in ("setup", "tick", "untick", "reset", "shutdown"):
            r = F.call(n, k)
            if k == "setup" and r == "IDLE":
                self.on = self.ever = True
                self.conf(e["conf"])
                if self.kind == "pub":
                    self.value(e["val"])
            elif k == "shutdown":
                self.on = False
        elif k == "conf":
            self.conf(e["v"])
        elif k == "val":
            self.value(e["v"])
        elif k == "clock":
            self.ros.nanos += e["d"] * 10**9
        elif k == "msg":
            self.arrive(next(c for c in self.w.clients[::-1] if c.alive), e["v"])
        elif k == "late":
            dead = [c for c in self.w.clients if not c.alive]
            if dead:
                self.arrive(self.rng.choice(dead[-3:]), e["v"])
        self.g = self.m = 0
        out = F.got(n, "message") if self.ever and self.kind != "pub" else None
        return {"r": r, "calls": self.w.take(), "out": out.data if isinstance(out, Int64) else 0, "live": self.w.live()}


class Walker(Driver):
    """Replays the model."""

    def __init__(self, rng, s):
        super().__init__({"kind": s["kind"], "T": 1, "confs": [0, rng.randrange(1, len(CONFS))]}, rng)


def choose(d, rng):
    v = lambda: rng.randint(1, 99)
    if not d.on:
        return rng.choice([{"k": "setup", "conf": rng.randint(1, 3), "val": v()}] * 6 + [{"k": "untick"}, {"k": "reset", "g": 0}, {"k": "shutdown", "g": 0}, {"k": "tick", "g": 0, "m": 0}])
    sub = d.kind != "pub"
    some = lambda: v() if sub and rng.random() < 0.25 else 0
    es = [({"k": "tick", "g": some(), "m": some()}, 6), ({"k": "untick"}, 0.7), ({"k": "reset", "g": some()}, 0.4), ({"k": "shutdown", "g": some()}, 0.2),
          ({"k": "setup", "conf": 1, "val": 1}, 0.05), ({"k": "conf", "v": rng.randint(1, len(CONFS))}, 0.6), ({"k": "clock", "d": rng.choice([1, 1, 2, 3])}, 1.5)]
    if not sub:
        es.append(({"k": "val", "v": rng.randint(1, 4)}, 2))
    else:
        if d.w.live():
            es.append(({"k": "msg", "v": v()}, 4))
        if any(not c.alive for c in d.w.clients):
            es.append(({"k": "late", "v": v()}, 0.7))
    return rng.choices([x[0] for x in es], [x[1] for x in es])[0]


def config(rng):
    return {"T": rng.choice([0, 1, 3]), "kind": rng.choice(["sub", "mem", "mem", "pub"])}


def run(check):
    g, res = P.explore("TopicMC")
    check.add(states=res.distinct, transitions=res.states)
    P.decide(check, "topic", "topic", g, Walker, Driver, choose, config, "TopicTrace", 300 if THOROUGH else 60, 400 if THOROUGH else 40)
    check.assumptions += ["the ROS graph is a stand-in; messages are delivered in another thread, also while a subscription is made, dropped, and after that",
                          "whether a publisher made anew repeats the last message is left open"]
