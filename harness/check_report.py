"""C30: diagnostics and log messages. See BTReport.

TLC explores what the nodes of a tree may do while diagnostics and log levels are switched (ReportMC); walks that cover its transitions
are executed by real nodes, with a debug manager and without. There, and in random histories of random trees, TLC judges the messages
(ReportTrace), and the status that is published about a tree that is loaded, renamed and executed."""

import contextlib
import copy
import json
import os
import random
import tempfile
import uuid

import actnodes
import boot
import check_edit as CE
import check_exec as CX
import edit as E
import execute as X
import kernel as K
import replay
import tlc
from common import SEED, THOROUGH
from pool import Pool
from record import KINDS, reply, sv

from ros_bt_py.debug_manager import DebugManager
from ros_bt_py.logging_manager import LoggingManager
from ros_bt_py.node import FlowControl, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.exceptions import BehaviorTreeException
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.vendor.result import Err, Ok
from ros_bt_py_interfaces.srv import ChangeTreeName, ClearTree, SetLogLevel
from std_srvs.srv import SetBool

FINE = {"setup": "IDLE", "tick": "RUNNING", "untick": "IDLE", "reset": "IDLE", "shutdown": "SHUTDOWN"}
LEVELS = {10: "debug", 20: "info", 30: "warn", 40: "error", 50: "fatal"}
NODE = {10: "logdebug", 20: "loginfo", 30: "logwarn", 40: "logerr", 50: "logfatal"}
TREES = {1: (uuid.UUID(int=71), "first"), 2: (uuid.UUID(int=72), "second one")}


class Boom(Exception):
    pass


@define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=None))
class Reporter(FlowControl):
    """Does what the program says."""

    def _body(self, k):
        return self.stage.body(k)

    def _do_setup(self):
        return self._body("setup")

    def _do_tick(self):
        return self._body("tick")

    def _do_untick(self):
        return self._body("untick")

    def _do_reset(self):
        return self._body("reset")

    def _do_shutdown(self):
        return self._body("shutdown")


class Stage:
    """Records what happens to some nodes."""

    def __init__(self, nodes, on, level, debug):
        self.ev, self.nodes = [], nodes
        self.num = {str(n.node_id): i + 1 for i, n in enumerate(nodes)}
        self.text, self.place = None, None
        ros = nodes[0].ros_node
        self.dm = DebugManager(ros_node=ros, node_diagnostics_publish_callback=self.message)
        self.logs = {g: LoggingManager(ros_node=ros, publish_log_callback=lambda m, g=g: self.logged(g, m)) for g in TREES}
        for g, (i, name) in TREES.items():
            self.logs[g].set_tree_id(i)
            self.logs[g].set_tree_name(name)
        self.logs[1].set_min_log_level(SetLogLevel.Request(min_log_level=level), SetLogLevel.Response())
        self.on, self.level = on, level
        self.dm.set_collect_node_diagnostics(SetBool.Request(data=on), SetBool.Response())
        for n in nodes:
            n.debug_manager = self.dm if debug else None
            n.logging_manager = self.logs[1]
            for k in KINDS:
                self.wrap(n, k)

    def wrap(self, node, k):
        i = self.num[str(node.node_id)]
        call, code = getattr(node, k), getattr(node, "_do_" + k)

        def outer():
            self.ev.append({"e": "call", "n": i, "k": k})
            r = "RAISE"
            try:
                res = call()
                r = reply(res)
                return res
            finally:
                self.ev.append({"e": "ret", "n": i, "k": k, "r": r})

        def inner():
            self.ev.append({"e": "do", "n": i, "k": k})
            try:
                return code()
            finally:
                self.ev.append({"e": "done", "n": i, "k": k})
        setattr(node, k, outer)
        setattr(node, "_do_" + k, inner)

    def message(self, m):
        kv = {x.key: x.value for x in m.values}
        n = self.num.get(kv.get("node_id"), 0)
        full = False
        if n:
            x = node = self.nodes[n - 1]
            path = []
            while x is not None:
                path.insert(0, x.name)
                x = x.parent
            full = m.name == node.name and kv.get("module") == type(node).__module__ and kv.get("node_class") == type(node).__name__ and kv.get("path") == str(path)
        self.ev.append({"e": "msg", "n": n, "ph": kv.get("state", ""), "full": full})

    def logged(self, g, m):
        n = self.num.get(m.node_id, 0)
        full = (m.tree_id, m.tree_name) == (str(TREES[g][0]), TREES[g][1]) and m.node_name == (self.nodes[n - 1].name if n else "") and bool(n) == bool(m.node_id)
        if self.text is not None:
            full = full and m.msg == self.text and m.function == self.place and os.path.basename(m.file) == os.path.basename(__file__)
        self.ev.append({"e": "out", "g": g, "n": n, "lvl": m.level, "full": full})

    def switch(self, on):
        self.ev.append({"e": "switch", "on": on})
        self.dm.set_collect_node_diagnostics(SetBool.Request(data=on), SetBool.Response())

    def minimum(self, lvl, g=1):
        self.ev.append({"e": "min", "lvl": lvl})
        self.logs[g].set_min_log_level(SetLogLevel.Request(min_log_level=lvl), SetLogLevel.Response())

    def say(self, g, n, lvl, internal):
        self.ev.append({"e": "say", "g": g, "n": n, "lvl": lvl, "internal": internal})
        self.text, self.place = f"text {len(self.ev)}", "say"
        if n:
            getattr(self.nodes[n - 1], NODE[lvl])(self.text, internal=internal)
        else:
            getattr(self.logs[g], LEVELS[lvl])(self.text, internal=internal)
        self.text = None
        self.ev.append({"e": "said"})


# ---------------------------------------------------------------- programs for three nodes
def program(ops):
    """A walk as nested calls: [op, ..]; a call has its own list and an end."""
    it = iter(ops)

    def rec():
        out = []
        for op in it:
            if op["e"] == "ret":
                return out, op["r"]
            if op["e"] == "call":
                body, end = rec()
                out.append({**op, "body": body, "end": end})
                if end == "raise":
                    return out, "raise"
            else:
                out.append(op)
        return out, "ok"
    out = []
    while True:
        part, end = rec()
        out += part
        if end != "raise":
            return out


class Play(Stage):
    def __init__(self, level, debug):
        ros = boot.make_ros_node()
        a, b, c = (Reporter(name=x, node_id=uuid.UUID(int=i + 1), ros_node=ros) for i, x in enumerate(("top node", "left", "right")))
        a.add_child(b).unwrap()
        a.add_child(c).unwrap()
        for n in (a, b, c):
            n.stage = self
        super().__init__([a, b, c], False, level, debug)
        self.plans = []

    def body(self, k):
        p, self.plans[-1] = self.plans[-1], None
        if p is None:          # the node was not asked by the program
            return Ok(FINE[k])
        self.perform(p["body"])
        if p["end"] == "raise" and not (p["body"] and p["body"][-1].get("end") == "raise"):
            raise Boom
        return Err(BehaviorTreeException("no")) if p["end"] == "err" else Ok(FINE[k])

    def perform(self, items):
        for i, x in enumerate(items):
            e = x["e"]
            if e == "switch":
                self.switch(x["on"])
            elif e == "min":
                self.minimum(x["lvl"], 1 + i % 2)
            elif e == "say":
                self.say(x["g"], x["n"], x["lvl"], x["internal"])
            elif e == "call":
                node = self.nodes[x["n"] - 1]
                legal = "SHUTDOWN" if x["k"] == "setup" else "IDLE"
                node._state = legal if x["legal"] else "SHUTDOWN" if x["k"] == "shutdown" else "IDLE" if x["k"] == "setup" else "UNINITIALIZED"
                self.plans.append(x)
                try:
                    getattr(node, x["k"])()
                finally:
                    self.plans.pop()

    def play(self, items):
        i = 0
        for x in items:
            try:
                self.perform([x])
            except Boom:
                pass
            i += 1


def played(ops, compare=True):
    res = []
    for debug in (True, False):
        s = Play(20, debug)
        with contextlib.redirect_stdout(E.NOWHERE):
            try:
                s.play(program(ops))
            except Exception as x:
                s.ev.append({"e": "crash", "x": repr(x)[:200]})
        res.append(s)
    return trace(res[0], res[1], compare)


def plain(ev):
    return [e for e in ev if e["e"] in ("call", "do", "done", "ret")]


def trace(a, b, compare=True):
    return {"on": a.on, "min": a.level, "ev": a.ev, "twin": plain(b.ev) if b else [], "compare": bool(b), "status": []}


def walks(seed, budget):
    g = replay.Graph()
    key = lambda s: s
    lines = []

    def line(v):
        a, op, b = v
        g.edge(g.state(key(a)), op, None, g.state(key(b)))
    res = tlc.run("ReportMC", env={"EMIT": 1}, on_line=line, workers=4, heap="3g")
    if not res.ok:
        raise RuntimeError("the specification violates its own properties:\n" + res.violation[-4000:])
    runs = []

    def new():
        runs.append([])
        return runs[-1]
    init = g.state(key([False, [], 20]))
    steps, cov, n, _ = replay.cover(g, init, new, lambda r, op, exp: r.append(op) and None, random.Random(seed), max_len=150, budget=budget)
    return res, g.edges, cov, [r for r in runs if r]


def closed(ops):
    """Ends what is still in progress."""
    depth = 0
    for o in ops:
        depth += o["e"] == "call"
        if o["e"] == "ret":
            depth = 0 if o["r"] == "raise" else depth - 1
    return ops + [{"e": "ret", "r": "ok"}] * depth


# ---------------------------------------------------------------- shipped nodes
class Inside(Stage):
    """Switches whenever a leaf is at work."""

    def __init__(self, tr, seed, debug):
        self.rng = random.Random(seed)
        self.t = K.Tree(tr)
        on, level = self.rng.random() < 0.6, self.rng.choice([20, 30, 40, 60])
        super().__init__(self.t.nodes, on, level, debug)
        for n in self.t.nodes:
            if not n.children:
                for k in KINDS:
                    self.poke(n, k)

    def poke(self, n, k):
        code = getattr(n, "_do_" + k)

        def f():
            self.some(0.12)
            r = code()
            self.some(0.12)
            return r
        setattr(n, "_do_" + k, f)

    def some(self, p):
        if self.rng.random() < p:
            self.now_on = not getattr(self, "now_on", self.on)
            self.switch(self.now_on)
        if self.rng.random() < p / 3:
            self.minimum(self.rng.choice([20, 25, 30, 40, 50, 60]), self.rng.choice([1, 2]))
        if self.rng.random() < p:
            self.say(self.rng.choice([1, 1, 2]), 0, self.rng.choice(list(LEVELS)), self.rng.random() < 0.3)


def shipped(args):
    seed, count, length = args
    rng = random.Random(seed)
    out = []
    while len(out) < count:
        tr = K.random_tree(rng, sorted(K.FLOW) + K.ALL_DECO, rng.choice([2, 3]), ("LEAF", "LEAF", "WAIT"), max_kids=3)
        if tr["n"] > 10:
            continue
        ops = K.random_history(rng, tr, length, rng.choice([0, 0, 0.05]))
        sd = rng.randrange(1 << 30)
        res = []
        for debug in (True, False):
            s = Inside(tr, sd, debug)
            with contextlib.redirect_stdout(E.NOWHERE):
                for op in ops:
                    s.t.apply(copy.deepcopy(op))
                    s.some(0.15)
            res.append(s)
        out.append(trace(*res))
    return out


# ---------------------------------------------------------------- the status of a tree
NAMES = {"": "", "plain": "plain", "tree.yaml": "tree", "a.b.yaml": "a.b", "one two": "one two"}


class Watched(X.Runner):
    def __init__(self, pool):
        super().__init__(pool)
        self.status, self.timer = [], None
        ros = boot.make_ros_node()
        ros.create_rate = lambda *a, **k: self.gate
        timers = []
        ros.create_timer = lambda period, f, *a, **k: timers.append((period, f))
        self.m = TreeEditManager(ros_node=ros, publish_tree_structure_callback=self.take, publish_tree_state_callback=self.state_seen,
                                 publish_diagnostic_callback=self.told, diagnostics_frequency=4.0)
        self.timers = [f for p, f in timers if abs(p - 0.25) < 1e-9]
        self.name = self.m.name

    def told(self, m):
        self.seen.append(m)

    def look(self, known=True):
        """The timer of the status rings."""
        self.seen = []
        before = str(self.m.state)
        for f in self.timers:
            f()
        root = self.root()
        if len(self.seen) != 1 or len(self.seen[0].status) != 1:
            self.status.append({"state": before, "name": "one", "root": "", "level": 0, "told": f"{len(self.seen)} messages"})
            return
        s = self.seen[0].status[0]
        level = s.level[0] if isinstance(s.level, bytes) else int(s.level)
        name = NAMES.get(self.m.name)
        told = s.name
        if not self.named or name is None or (name == "" and not self.fresh):
            name, told = "open", "open"
        self.status.append({"state": before, "name": name, "root": root.name if root else "", "level": level, "told": told})


def status(args):
    seed, count = args
    rng = random.Random(seed)
    out = []
    for _ in range(count):
        pool = CX.pool()
        with contextlib.redirect_stdout(E.NOWHERE):
            w = Watched(pool)
            w.named = w.fresh = False
            actnodes.PLAN.clear()
            actnodes.HOOKS.clear()
            actnodes.PLAN["tick"] = lambda: rng.choice(["RUNNING", "RUNNING", "SUCCEEDED", "ERR"] if rng.random() < 0.3 else ["RUNNING"])

            def op(node, k, call):
                r = call()
                if rng.random() < 0.3:
                    w.look()
                return r
            actnodes.HOOKS["op"] = op
            log = []
            for _ in range(14):
                x = rng.random()
                if x < 0.3 or not w.named:
                    name = rng.choice(list(NAMES))
                    bad = rng.random() < 0.2
                    t = {"nodes": [CE.node(1, CX.ACT, [5]), CE.node(5, CE.FLOW if not bad else CX.ACT, [1] if bad else [])], "wires": [], **{**CX.QUIET, "name": name}}
                    f, req, resp = w.request({"k": "load", "tree": t})
                    ok = f(req, resp).success
                    log.append(["load", name, ok])
                    if ok:
                        w.named = w.fresh = True
                elif x < 0.4 and w.named:
                    name = rng.choice([n for n in NAMES if n])
                    ok = w.m.change_tree_name(ChangeTreeName.Request(name=name), ChangeTreeName.Response()).success
                    log.append(["rename", name, ok])
                else:
                    c = rng.choice(["once", "always", "until", "loop", "loop", "stop", "shutdown", "reset"])
                    w.command(c)
                    log.append([c])
                w.look()
            w.close()
        out.append({"on": False, "min": 20, "ev": [], "twin": [], "compare": False, "status": w.status, "log": log})
    return out


def play_all(args):
    return [played(closed(o)) for o in args]


def judge(traces):
    def job(chunk, at):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        res = tlc.run("ReportTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or len(vs) != len(chunk):
            raise RuntimeError(f"ReportTrace failed:\n{res.out[-3000:]}")
        return [(at + v[0] - 1, v[1]) for v in vs if v[1]]
    size = max(1, -(-len(traces) // 8))
    return [x for r in tlc.parallel([lambda i=i: job(traces[i:i + size], i) for i in range(0, len(traces), size)]) for x in r]


def run(check):
    if THOROUGH:
        for w in ("always", "silent", "loud"):
            if tlc.run("ReportMC", cfg="ReportWeak_" + w).ok:
                raise RuntimeError(f"the specification permits '{w}'")
    res, edges, cov, ws = walks(SEED, 2000000 if THOROUGH else 60000)
    with Pool(8) as pool:
        a = pool.map_async(play_all, [ws[i::32] for i in range(32)], chunksize=1)
        b = pool.map_async(shipped, [(SEED * 900 + i, 400 if THOROUGH else 25, 30) for i in range(8)], chunksize=1)
        c = pool.map_async(status, [(SEED * 700 + i, 300 if THOROUGH else 20) for i in range(8)], chunksize=1)
        plays, ships, stats = ([t for ts in r.get() for t in ts] for r in (a, b, c))
    traces = plays + ships + stats
    check.add(states=res.distinct, transitions=edges, transitions_replayed=cov, traces_validated_against_impl=len(traces),
              operations=sum(e["e"] == "call" for t in traces for e in t["ev"]), diagnostics=sum(e["e"] == "msg" for t in traces for e in t["ev"]),
              log_messages=sum(e["e"] == "out" for t in traces for e in t["ev"]), statuses=sum(len(t["status"]) for t in traces))
    check.sample({"events": plays[0]["ev"][:20], "status": stats[0]["status"][:3]})
    for i, v in judge(traces):
        t = traces[i]
        check.violation(f"{'nodes' if i < len(plays) else 'a tree of shipped nodes' if i < len(plays) + len(ships) else 'status'}: {v[1]}",
                        {"verdict": v, "events": t["ev"][:v[0] or 200][-60:], "twin": t["twin"][:100], "status": t["status"][:v[0]][-3:], "requests": t.get("log", [])})
    check.assumptions += ["an operation that was going on when the collection was switched on may be reported as finished or not",
                          "the end of an operation that raises may be reported or not", "one thread"]
