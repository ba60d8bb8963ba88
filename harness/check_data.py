"""C08: data flow between nodes.

TLC explores every history of small wired trees (DataMC); its transitions are replayed on real trees, and random histories of larger
trees with many kinds of values are judged by TLC (DataTrace)."""

import contextlib
import copy
import itertools
import json
import os
import random
import tempfile
import time
import uuid

import check_edit as CE
import datanodes as DN
import edit as E
import replay
import tlc
from pool import Pool, Refusal
from common import SEED, THOROUGH
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.tree_exec_manager import TreeExecManager
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeIO, NodeStructure, TreeStructure, Wiring
from ros_bt_py_interfaces.srv import ClearTree, LoadTree


class Stop(Exception):
    pass


class Driver:
    """A real tree; executes events and looks at it after each."""

    def __init__(self, tree, kinds, rng, alias=False):
        """kinds: (node, slot) -> kind of values."""
        self.tree, self.kinds, self.rng, self.alias = tree, kinds, rng, alias
        n = len(tree["kids"])
        self.uid = [uuid.uuid4() for _ in range(n)]
        msgs = []
        for i in range(n):
            text = lambda ks: json.dumps(" ".join(f"{k}:{kinds[i + 1, k]}" for k in ks))
            st = DN.StringType(allow_dynamic=False).serialize_type()
            msgs.append(NodeStructure(
                module="datanodes", node_class="DataFlow" if tree["flow"][i] else "DataLeaf", name=f"n{i + 1}", node_id=str(self.uid[i]),
                child_ids=[str(self.uid[k - 1]) for k in tree["kids"][i]], max_children=-1,
                inputs=[NodeIO(key="takes", type=st, serialized_value=text(tree["ins"][i])), NodeIO(key="gives", type=st, serialized_value=text(tree["outs"][i]))]))
        loc = lambda n, k, o: NodeDataLocation(node_id=str(self.uid[n - 1]), data_kind="outputs" if o else "inputs", data_key=k)
        ws = [Wiring(source=loc(w[0], w[1], True), target=loc(w[2], w[3], False)) for w in tree["wires"]]
        rng.shuffle(ws)
        self.m = TreeExecManager(ros_node=E.ros())
        r = self.m.load_tree(LoadTree.Request(tree=TreeStructure(name="t", nodes=msgs, data_wirings=ws, tick_frequency_hz=10.0, root_id=str(self.uid[0]))), LoadTree.Response())
        if not r.success:
            raise Refusal("a valid tree is not loaded: " + r.error_message)
        self.m.data_flow_manager.initialize(self.m.nodes, self.m.wirings)
        self.nodes = [self.m.nodes[u] for u in self.uid]
        self.num = {u: i + 1 for i, u in enumerate(self.uid)}
        self.frames = []

    def look(self):
        out = []
        for i, n in enumerate(self.nodes):
            ins = {}
            for k in self.tree["ins"][i]:
                ins[k] = {"v": self.text(n.inputs.get_value(k)), "u": bool(n.inputs.any_updated(k).unwrap())}
            out.append({"inp": ins, "out": {k: self.text(n.node_config.outputs[k].get_value()) for k in self.tree["outs"][i]}})
        return out

    def text(self, r):
        if r.is_err():
            return "none"
        v = r.unwrap()
        s = json.dumps(v, sort_keys=True)
        if self.alias:
            self.spoil(v)
        return s

    def spoil(self, v):
        """What was handed out or over is changed afterwards."""
        if isinstance(v, list):
            for x in v:
                self.spoil(x)
            v.append(v[0] if v and not isinstance(v[0], (list, dict)) else 99)
        elif isinstance(v, dict):
            v["spoiled"] = 7

    # events come from feed(); seen(event, entered) is told what happened
    def run(self, feed, seen):
        self.feed, self.seen = feed, seen
        DN.DRIVER[0] = self
        while (e := feed()) is not None:
            k = e["k"]
            if k == "begin":
                self.begin(e)
            else:
                getattr(self.nodes[e.get("n", 1) - 1], k)()
                seen(e, None)

    def begin(self, e):
        f = {"e": e, "entered": False, "end": None}
        self.frames.append(f)
        self.nodes[e["n"] - 1].tick()
        self.frames.pop()
        if not f["entered"]:
            self.seen(e, False)
        elif f["end"]:
            self.seen(f["end"], None)

    def inside(self, node):
        f = self.frames[-1]
        f["entered"] = True
        self.seen(f["e"], True)
        while (e := self.feed()) is not None:
            k = e["k"]
            if k in ("end", "err"):
                f["end"] = e
                return Ok(self.rng.choice([BTNodeState.RUNNING, BTNodeState.SUCCEEDED, BTNodeState.FAILED])) if k == "end" else DN.ERROR
            if k == "begin":
                self.begin(e)
            elif k == "write":
                v = json.loads(e["v"])
                node.outputs.set_value(e["o"], v).unwrap()
                if self.alias:
                    self.spoil(v)
                self.seen(e, None)
            else:
                getattr(self.nodes[e["n"] - 1], k)()
                self.seen(e, None)
        return Ok(BTNodeState.RUNNING)


# ------------------------------------------------------------------------------------------------ exhaustive

def case(kids, wires, errors=True, flow=None, outs=None):
    n = len(kids)
    outs = outs or [["x"]] * n
    return {"kids": kids, "ins": [sorted({w[3] for w in wires if w[2] == i + 1}) for i in range(n)], "outs": outs, "wires": wires, "errors": errors,
            "flow": flow or [bool(k) for k in kids]}


def cases():
    out = []
    def add(kids, ws, errors=False, outs=None):
        outs = outs or [sorted({w[1] for w in ws if w[0] == n + 1}) for n in range(len(kids))]
        out.append(case(kids, ws, errors, outs=outs))
    add([[2], []], [[1, "x", 2, "a"]], True, outs=[["x"], ["x"]])              # down
    add([[2], []], [[1, "x", 2, "a"], [2, "x", 2, "a"]])                       # down and to itself
    add([[2, 3], [], []], [[2, "x", 3, "a"]], True)                            # to a neighbour
    add([[2, 3], [], []], [[3, "x", 2, "a"], [2, "x", 2, "a"]])                # against the order, and to itself
    add([[2, 3], [], []], [[1, "x", 2, "a"], [1, "x", 3, "a"]])                # to several
    add([[2, 3], [], []], [[1, "x", 3, "a"], [2, "x", 3, "a"]])                # from several
    add([[2, 3], [], []], [[2, "x", 3, "a"], [2, "y", 3, "b"]])                # two values
    add([[2, 3], [4], [], []], [[3, "x", 2, "a"], [4, "x", 2, "a"]])           # up, while the receiver is ticking
    add([[2, 3], [4], [], []], [[3, "x", 2, "a"], [2, "x", 4, "a"]])           # through
    add([[2, 3], [4], [], []], [[3, "x", 4, "a"], [4, "x", 2, "a"], [3, "x", 2, "a"]])
    add([[2, 3, 4], [], [], []], [[2, "x", 3, "a"], [3, "x", 4, "a"]])         # chain
    return out


def same(exp, obs):
    for x, o in zip(exp, obs):
        if x["st"] != "on":
            continue
        for k, y in (x["inp"] or {}).items():
            if o["inp"][k] != y:
                return "input value" if o["inp"][k]["v"] != y["v"] else "updated flag"
        for k, y in (x["out"] or {}).items():
            if o["out"][k] != y:
                return "output value"
    return None


def walk(c, ops, exps, seed):
    """Executes events; the first difference, or None."""
    rng = random.Random(seed)
    d = Driver(c, KINDS2, rng)
    it = iter(range(len(ops)))
    cur = [None]
    bad = []

    def feed():
        cur[0] = next(it, None)
        return None if cur[0] is None or bad else ops[cur[0]]

    def seen(e, entered):
        i = next(j for j in range(cur[0] if cur[0] is not None else len(ops) - 1, -1, -1) if ops[j] is e)
        src, see = exps[i]
        if entered is not None and not bad:
            enters = len(src[1]["stack"]) > len(src[0]["stack"])
            if entered != enters:
                bad.append((i, f"a tick of node {e['n']} is {'made' if entered else 'refused'}"))
                return
        why = same(see, d.look())
        if why and not bad:
            bad.append((i, why))
    d.run(feed, seen)
    return bad[0] if bad else None


class Any(dict):
    def __missing__(self, k):
        return "int"


KINDS2 = Any()


def work(args):
    num, seed, budget = args
    c = cases()[num]
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump({k: c[k] for k in ("kids", "ins", "outs", "wires", "errors")}, f)
    g = replay.Graph()

    def line(v):
        a, e, b, see = v
        g.edge(g.state(a), e, ((a, b), see), g.state(b))
        if g.init == [] and blank(a):
            g.init = g.state(a)
    res = tlc.run("DataMC", env={"CASE": path}, on_line=line, heap="3g")
    os.unlink(path)
    out = {"case": num, "states": res.distinct, "transitions": g.edges, "model": None if res.ok else res.violation, "fails": []}
    if not res.ok:
        return out
    pend = []
    rng = random.Random(seed)
    end = time.time() + budget

    def flush():
        if pend:
            ops, exps = [p[0] for p in pend], [p[1] for p in pend]
            with contextlib.redirect_stdout(E.NOWHERE):
                bad = walk(c, ops, exps, rng.random())
            if bad:
                out["fails"].append((ops[:bad[0] + 1], bad[1]))
        pend.clear()

    def new():
        flush()
        return None

    def step(_, op, obs):
        pend.append((dict(op), obs))
        return None
    steps, cov, walks, _ = replay.cover(g, g.init, new, step, rng, max_len=250, clock=lambda: time.time() > end or len(out["fails"]) > 5)
    flush()
    return {**out, "steps": steps, "covered": cov, "walks": walks}


def blank(a):
    return a["st"][0] == "off" and all(x["v"] == "none" and not x["u"] for w in ("inp", "out") for n in a[w] for x in (n or {}).values())


# ------------------------------------------------------------------------------------------------ recorded

def random_tree(rng):
    n = rng.randint(2, 7)
    kids = [[] for _ in range(n)]
    flow = [True] + [rng.random() < 0.35 for _ in range(n - 1)]
    for i in range(1, n):
        p = rng.choice([j for j in range(i) if flow[j]])
        kids[p].append(i + 1)
    kinds = {}
    wires = []
    outs = [rng.sample(["x", "y", "z"], rng.randint(0 if rng.random() < 0.2 else 1, 2)) for _ in range(n)]
    for i in range(n):
        for k in outs[i]:
            kinds[i + 1, k] = rng.choice(list(DN.TYPES))
    ins = [[] for _ in range(n)]
    srcs = list(kinds)
    if not srcs:
        return None
    for _ in range(rng.randint(1, 8)):
        s = rng.choice(srcs)
        t, k = rng.randint(1, n), rng.choice("ab")
        if kinds.get((t, k), kinds[s]) != kinds[s] or any(w[0] == s[0] and w[2:] == [t, k] for w in wires):
            continue
        kinds[t, k] = kinds[s]
        if k not in ins[t - 1]:
            ins[t - 1].append(k)
        wires.append([s[0], s[1], t, k])
    return {"kids": kids, "flow": flow, "ins": ins, "outs": outs, "wires": wires}, kinds


def record(args):
    seed, count, length = args
    rng = random.Random(seed)
    traces = []
    while len(traces) < count:
        x = random_tree(rng)
        if x is None:
            continue
        tree, kinds = x
        with contextlib.redirect_stdout(E.NOWHERE):
            d = Driver(tree, kinds, rng, alias=rng.random() < 0.7)
            evs = []
            stack = []
            ready = [False]
            wrote = []

            def feed():
                if len(evs) + len(stack) >= length:
                    return None
                if not stack:
                    if not ready[0]:
                        ready[0] = True
                        return {"k": "setup"}
                    r = rng.random()
                    if r < 0.05:
                        ready[0] = False
                        return {"k": "shutdown"}
                    return {"k": "begin" if r < 0.85 else rng.choice(["reset", "untick"]), "n": 1}
                top = stack[-1]
                r = rng.random()
                kids, outs = tree["kids"][top - 1], tree["outs"][top - 1]
                if kids and r < 0.65:
                    return {"k": "begin" if rng.random() < 0.9 else rng.choice(["reset", "untick"]), "n": rng.choice(kids)}
                if outs and r < (0.75 if kids else 0.6):
                    o = rng.choice(outs)
                    wrote[-1] = True
                    return {"k": "write", "o": o, "v": json.dumps(rng.choice(DN.VALUES[kinds[top, o]]), sort_keys=True)}
                if not wrote[-1] and rng.random() < 0.02:
                    return {"k": "err"}
                return {"k": "end"}

            def seen(e, entered):
                if e["k"] == "begin" and entered:
                    stack.append(e["n"])
                    wrote.append(False)
                if e["k"] in ("end", "err"):
                    stack.pop()
                    wrote.pop()
                evs.append({**e, "seen": int(bool(entered)), "obs": d.look()})
            d.run(feed, seen)
        traces.append({"tree": tree, "events": evs})
    return traces


def judge(traces):
    def job(chunk, at):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        res = tlc.run("DataTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or len(vs) != len(chunk):
            raise RuntimeError(f"DataTrace failed:\n{res.out[-3000:]}")
        return [(at + v[0] - 1, v[1]) for v in vs if v[1]]
    size = max(1, -(-len(traces) // 8))
    return [x for r in tlc.parallel([lambda i=i: job(traces[i:i + size], i) for i in range(0, len(traces), size)]) for x in r]


def short(es):
    return " ".join(e["k"] + "".join(str(e[x]) for x in ("n", "o") if x in e) + ("=" + e["v"] if "v" in e else "") for e in es)


def run(check):
    jobs = [(i, SEED + i, 16 if not THOROUGH else 600) for i in range(len(cases()))]
    with Pool(8) as pool:
        outs = pool.map(work, jobs, chunksize=1)
        traces = [t for ts in pool.map(record, [(SEED * 100 + i, 60 if not THOROUGH else 1500, 60) for i in range(8)], chunksize=1) for t in ts]
    whole = True
    for o in outs:
        if o["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + o["model"][-3000:])
        check.add(states=o["states"], transitions=o["transitions"], steps_replayed=o["steps"], transitions_replayed=o["covered"], walks=o["walks"])
        whole = whole and o["covered"] == o["transitions"]
        for ops, why in o["fails"]:
            check.violation(f"wires {cases()[o['case']]['wires']}: {short(ops)}: {why}", {"case": cases()[o["case"]], "events": ops, "why": why})
    check.cov["exhaustive"] = whole
    check.add(traces_validated_against_impl=len(traces), recorded_steps=sum(len(t["events"]) for t in traces))
    check.sample({"tree": traces[0]["tree"], "events": short(traces[0]["events"])[:400]})
    for i, v in judge(traces):
        t = traces[i]
        check.violation(f"wires {t['tree']['wires']}: {short(t['events'][:v[0]])[-300:]}: {json.dumps(v[1])[:300]}", {"trace": {**t, "events": t["events"][:v[0]]}, "verdict": v})
    check.assumptions += ["node classes are written for the check: they write and tick what a script says", "values of ROS messages are covered by C11 and C26"]
