"""C27: what is published about a tree and the trees in its subtrees. See BTPublish.

TLC explores histories of edits, commands and switches over a tree with two places (PublishMC); its transitions are replayed on a real tree
manager. After every request, there and in random histories of larger trees, TLC compares the last published messages with the tree
(PublishTrace)."""

import contextlib
import copy
import json
import os
import random
import shutil
import tempfile
import threading
import time
import uuid

from std_srvs.srv import SetBool

import boot
import check_subtree as CS
import datanodes as DN
import edit as E
import execute
import replay
import tlc
from common import SEED, THOROUGH
from pool import Pool
from ros_bt_py.data_types import PathType
from ros_bt_py.ros_nodes.subtree import Subtree
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeStructure, TreeStructure, Wiring
from ros_bt_py_interfaces.srv import (
    AddNode, ClearTree, LoadTree, MorphNode, MoveNode, ReloadTree, RemoveNode, ReplaceNode, SetOptions, WireNodeData)

U = lambda i: str(uuid.UUID(int=i))
FILES = ["A", "B", "C", "E"]


def leafmsg(id, kids=None, takes="", gives=""):
    opts = [CS.option("takes", DN.StringType(allow_dynamic=False), takes), CS.option("gives", DN.StringType(allow_dynamic=False), gives)]
    return NodeStructure(module="datanodes", node_class="DataLeaf" if kids is None else "DataFlow", name=f"n{id}", node_id=U(id) if id else "", max_children=-1,
                         child_ids=[U(k) for k in kids or ()], inputs=opts)


def submsg(id, path):
    return NodeStructure(module="ros_bt_py.ros_nodes.subtree", node_class="Subtree", name="sub", node_id=U(id) if id else "", max_children=-1,
                         inputs=[CS.option("subtree_path", PathType(allow_dynamic=False), path)])


def wire(s, sk, t, tk):
    return Wiring(source=NodeDataLocation(node_id=str(s), data_kind="outputs", data_key=sk), target=NodeDataLocation(node_id=str(t), data_kind="inputs", data_key=tk))


class World:
    """The files and a manager."""

    def __init__(self, rng):
        self.rng = rng
        self.dir = tempfile.mkdtemp(dir=tlc.SCRATCH)
        p = {k: f"file://{self.dir}/{k}.yaml" for k in FILES}
        tree = lambda name, ns, ws=(): TreeStructure(name=name, nodes=ns, data_wirings=list(ws), tick_frequency_hz=10.0, root_id=ns[0].node_id)
        out = NodeStructure(module="ros_bt_py.nodes.io", node_class="IOOutput", name="out", node_id=U(9), inputs=[CS.option("io_type", CS.GenericType(), CS.BORDER["int"])])
        trees = {"A": tree("A", [leafmsg(5, None, "", "x:gint")]),
                 "B": tree("B", [leafmsg(5, [6, 7, 8]), leafmsg(6, None, "", "x:gint y:gstr"), leafmsg(7, None, "a:gint b:gstr", "x:gint"), submsg(8, p["A"])],
                           [wire(U(6), "x", U(7), "a"), wire(U(6), "y", U(7), "b")]),
                 "C": tree("C", [leafmsg(5, [6, 9]), leafmsg(6, None, "", "x:gint"), out], [wire(U(6), "x", U(9), "in")]),
                 "E": tree("E", [leafmsg(5, [6, 7]), leafmsg(6, None, "", "x:gint"), submsg(7, p["B"])])}
        trees["C"].nodes[2].inputs[0] = CS.option("io_type", CS.GenericType(), CS.BORDER["int"])
        self.path = p
        for k, t in trees.items():
            with open(p[k][7:], "w") as f:
                f.write(CS.text(t))
        # from execute.Runner: the tick loop turns when it is told to
        self.gate = execute.Gate()
        ros = boot.make_ros_node()
        ros.create_rate = lambda *a, **k: self.gate
        ros.create_timer = lambda *a, **k: None
        self.closed = False
        self.structure = self.states = self.data = None
        self.sent = 0
        self.log = []
        self.ticked = set()
        self.base = set(threading.enumerate())
        DN.DRIVER[0] = self
        with contextlib.redirect_stdout(E.NOWHERE):
            self.m = TreeEditManager(ros_node=ros, subtree_manager=SubtreeManager(), publish_tree_structure_callback=lambda m: setattr(self, "structure", copy.deepcopy(m)),
                                     publish_tree_state_callback=lambda m: setattr(self, "states", copy.deepcopy(m)), publish_tree_data_callback=self.take)
        self.gate.open = lambda: self.m.state == "STOP_REQUESTED" or self.closed

    command = execute.Runner.command
    settle = execute.Runner.settle

    def take(self, m):
        self.sent += 1
        self.data = copy.deepcopy(m)

    def close(self):
        self.closed = True
        for _ in range(3):
            if self.m.state != "EDITABLE":
                self.command("shutdown")
        shutil.rmtree(self.dir)

    # -------- scripted nodes
    def inside(self, node):
        self.ticked.add(id(node))
        rng = self.rng
        outs = [k for k in node.outputs.keys()] if hasattr(node.outputs, "keys") else list(node.node_config.outputs)
        for k in outs:
            if rng.random() < 0.7:
                node.outputs.set_value(k, rng.choice(DN.VALUES["int" if k == "x" else "str"])).unwrap()
        for c in node.children:
            r = c.tick()
            if r.is_err():
                return r
            if str(r.unwrap()) != "SUCCEEDED" and rng.random() < 0.5:
                return r
        return Ok(rng.choice(["SUCCEEDED", "SUCCEEDED", "FAILED", "RUNNING"]))

    # -------- what there is
    def tree(self, m):
        roots = [n for n in m.nodes.values() if n.parent is None]
        val = lambda cs, k: (lambda c: c.serialize_value() if c is not None and c.get_value().is_ok() else "")(cs.get(k))
        ws = []
        for w in m.wirings:
            s, t = m.nodes[uuid.UUID(w.source.node_id)], m.nodes[uuid.UUID(w.target.node_id)]
            a, b = val(s.node_config.outputs, w.source.data_key), val(t.node_config.inputs, w.target.data_key)
            ws.append([w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key, a, a == b])
        nodes = [{"id": str(n.node_id), "name": n.name, "cls": type(n).__name__, "state": str(n.state), "kids": [str(c.node_id) for c in n.children]} for n in m.nodes.values()]
        subs = [self.tree(n.manager) for n in m.nodes.values() if isinstance(n, Subtree)]
        return {"id": str(m.tree_id.unwrap()), "nodes": nodes, "wires": ws, "root": str(roots[0].node_id) if len(roots) == 1 else U(0),
                "subs": subs, "ticked": any(id(n) in self.ticked for n in m.nodes.values()) or any(u["ticked"] for u in subs)}

    def look(self, r):
        loc = lambda w: [w.source.node_id, w.source.data_key, w.target.node_id, w.target.data_key]
        own = [s.state for s in self.states.tree_states if s.tree_id == U(0)]
        return {
            "r": r, "tree": self.tree(self.m), "state": str(self.m.state), "told": own[0] if len(own) == 1 else f"{len(own)} times",
            "structure": [{"id": t.tree_id, "nodes": [{"id": n.node_id, "name": n.name, "cls": n.node_class, "kids": list(n.child_ids)} for n in t.nodes],
                           "wires": [loc(w) for w in t.data_wirings], "root": t.root_id or U(0)} for t in self.structure.tree_structures],
            "states": [{"id": t.tree_id, "nodes": [{"id": n.node_id, "state": n.state} for n in t.node_states]} for t in self.states.tree_states],
            "data": [{"id": t.tree_id, "wires": [loc(d.wiring) + [d.serialized_data, bool(d.is_current)] for d in t.wiring_data]} for t in self.data.tree_data] if self.data else [],
            "sent": self.sent}

    # -------- requests
    def ask(self, f):
        """f() -> response; observation."""
        self.sent = 0
        self.ticked.clear()
        with contextlib.redirect_stdout(E.NOWHERE):
            try:
                with E.limit(10):
                    x = f()
                    r = x if isinstance(x, str) else "ok" if x is True or (not isinstance(x, bool) and x.success) else "fail"
            except E.Hang:
                r = "does not answer"
            except Exception as ex:
                r = f"raises {type(ex).__name__}: {ex}"[:150]
            return self.look(r)

    def run(self, c):
        def f():
            a, _ = self.command(c)
            return a
        return self.ask(f)

    def node(self, kind, id=0):
        return leafmsg(id, None, "", "x:gint") if kind == "l" else leafmsg(id, None, "a:gint", "x:gint") if kind == "m" else leafmsg(id, []) if kind == "f" else submsg(id, self.path[kind])

    def switch(self, f, on):
        return self.ask(lambda: getattr(self.m, f)(SetBool.Request(data=on), SetBool.Response()))

    def load(self, nodes, wires=()):
        t = TreeStructure(name="t", nodes=nodes, data_wirings=list(wires), tick_frequency_hz=10.0, root_id=nodes[0].node_id)
        return self.ask(lambda: self.m.load_tree(LoadTree.Request(tree=t), LoadTree.Response()))


# ------------------------------------------------------------------------------------------------ exhaustive

class Pair(World):
    """A root with two places."""

    def __init__(self, rng):
        super().__init__(rng)
        self.at = {1: None, 2: None}
        self.trace = []
        self.load([leafmsg(1, [])])

    def step(self, e):
        m, k = self.m, e["k"]
        i = e.get("at")
        if k == "add":
            def f():
                r = m.add_node(AddNode.Request(node=self.node(e["kind"]), parent_node_id=U(1)), AddNode.Response())
                if r.success:
                    self.at[i] = r.node_id
                return r
            o = self.ask(f)
        elif k == "morph":
            o = self.ask(lambda: m.morph_node(MorphNode.Request(node_id=self.at[i], new_node=self.node(e["kind"])), MorphNode.Response()))
        elif k == "remove":
            o = self.ask(lambda: m.remove_node(RemoveNode.Request(node_id=self.at[i], remove_children=True), RemoveNode.Response()))
            if o["r"] == "ok":
                self.at[i] = None
        elif k == "load":
            o = self.load([leafmsg(1, [2, 3]), submsg(2, self.path["B"]), leafmsg(3, None, "", "x:gint")])
            if o["r"] == "ok":
                self.at = {1: U(2), 2: U(3)}
        elif k in ("subs", "data"):
            o = self.switch({"subs": "set_publish_subtrees", "data": "set_publish_data"}[k], e["on"])
        else:
            o = self.run(k)
        self.trace.append({"e": e, "o": o})
        return o


def fits(o, told):
    """The nested trees told about, by the names of their nodes."""
    got = {"A": 0, "B": 0}
    for t in o["structure"]:
        if t["id"] != U(0):
            got["A" if len(t["nodes"]) == 1 else "B"] += 1
    return None if got == told else f"tells about {got['A']} A and {got['B']} B, should be {told['A']} and {told['B']}"


def explore(_):
    g = replay.Graph()

    def line(v):
        s, e, r, told = v
        ka, kb = g.state(s), g.state(r)
        g.edge(ka, e, told, kb)
        if g.init == [] and s["k"] == ["-", "-"] and s["life"] == "EDITABLE" and s["ps"] and not s["pd"]:
            g.init = ka
    res = tlc.run("PublishMC", on_line=line)
    if not res.ok:
        raise RuntimeError("PublishMC failed:\n" + res.out[-3000:])
    return g, res.distinct


def walk_all(args):
    g, seed, part, of, budget = args
    rng = random.Random(seed)
    traces, fails = [], []
    cur = [None]

    def new():
        if cur[0]:
            cur[0].close()
            traces.append(cur[0].trace)
        cur[0] = Pair(random.Random(rng.random()))
        return cur[0]

    def step(d, op, told):
        o = d.step(op)
        why = fits(o, told)
        if why:
            fails.append((list(d.trace), why))
        return why
    end = time.time() + budget
    n = [0]

    def mine(s, e):
        n[0] += 1
        return n[0] % of == part
    steps = cov = 0
    while len(fails) < 4:
        st, cov, walks, bad = replay.cover(g, g.init, new, step, rng, max_len=40, clock=lambda: time.time() > end, mine=mine)
        steps += st
        break
    if cur[0]:
        cur[0].close()
        traces.append(cur[0].trace)
    return traces, [(t, w) for t, w in fails], steps, cov


# ------------------------------------------------------------------------------------------------ random histories

def history(args):
    seed, count, length = args
    rng = random.Random(seed)
    out = []
    for _ in range(count):
        w = World(rng)
        m = w.m
        tr = []

        def put(k, o, **kw):
            tr.append({"e": {"k": k, **kw}, "o": o})
        put("load", w.load([leafmsg(1, [2, 3, 4]), leafmsg(2, None, "", "x:gint"), leafmsg(3, None, "a:gint", "x:gint"), w.node(rng.choice(FILES), 4)], [wire(U(2), "x", U(3), "a")]))
        while len(tr) < length:
            r = rng.random()
            ids = [str(n.node_id) for n in m.nodes.values()] or [U(1)]
            pick = lambda: rng.choice(ids) if rng.random() < 0.97 else U(99)
            kind = lambda: rng.choice(FILES + ["l", "m", "f"])
            if r < 0.12:
                b = rng.random() < 0.6
                f = rng.choice(["subs", "data", "data"])
                put(f, w.switch({"subs": "set_publish_subtrees", "data": "set_publish_data"}[f], b), on=b)
            elif m.state != "EDITABLE" and r < 0.95:
                c = rng.choice(["once"] * 4 + ["until", "always", "loop", "loop", "stop", "stop", "reset", "shutdown", "shutdown"])
                put(c, w.run(c))
            elif r < 0.3:
                c = rng.choice(["once", "once", "until", "always", "check", "shutdown", "reset"])
                put(c, w.run(c))
            else:
                k = rng.choice(["add", "add", "remove", "morph", "morph", "options", "replace", "move", "wire", "wire", "wire", "unwire", "clear", "reload", "bad", "bad"])
                flows = [str(n.node_id) for n in m.nodes.values() if type(n).__name__ == "DataFlow"]
                if k == "add":
                    q, R, f = AddNode.Request(node=w.node(kind()), parent_node_id=rng.choice(flows) if flows and rng.random() < 0.9 else U(0)), AddNode.Response, m.add_node
                elif k == "remove":
                    q, R, f = RemoveNode.Request(node_id=pick(), remove_children=rng.random() < 0.7), RemoveNode.Response, m.remove_node
                elif k == "morph":
                    q, R, f = MorphNode.Request(node_id=pick(), new_node=w.node(kind())), MorphNode.Response, m.morph_node
                elif k == "options":
                    subs = [str(n.node_id) for n in m.nodes.values() if isinstance(n, Subtree)]
                    q = SetOptions.Request(node_id=rng.choice(subs) if subs else pick(), rename_node=rng.random() < 0.5, new_name="new",
                                           inputs=[CS.option("subtree_path", PathType(allow_dynamic=False), w.path[rng.choice(FILES)])] if subs and rng.random() < 0.7 else [])
                    R, f = SetOptions.Response, m.set_options
                elif k == "replace":
                    q, R, f = ReplaceNode.Request(old_node_id=pick(), new_node_id=pick()), ReplaceNode.Response, m.replace_node
                elif k == "move":
                    q, R, f = MoveNode.Request(node_id=pick(), parent_node_id=pick(), new_child_index=rng.choice([0, 1, -1])), MoveNode.Response, m.move_node
                elif k == "wire":
                    srcs = [(str(n.node_id), o) for n in m.nodes.values() for o in n.node_config.outputs]
                    dsts = [(str(n.node_id), o) for n in m.nodes.values() for o in n.node_config.inputs if o in "ab"]
                    if not srcs or not dsts:
                        continue
                    q, R, f = WireNodeData.Request(wirings=[wire(*rng.choice(srcs), *rng.choice(dsts)) for _ in range(rng.choice([1, 1, 2]))]), WireNodeData.Response, m.wire_data
                elif k == "unwire":
                    if not m.wirings:
                        continue
                    q, R, f = WireNodeData.Request(wirings=[copy.deepcopy(rng.choice(list(m.wirings)))]), WireNodeData.Response, m.unwire_data
                elif k == "clear":
                    if rng.random() < 0.7:
                        continue
                    q, R, f = ClearTree.Request(), ClearTree.Response, m.clear
                elif k == "reload":
                    q, R, f = ReloadTree.Request(), ReloadTree.Response, m.reload_tree
                elif rng.random() < 0.5:
                    q, R, f = AddNode.Request(node=submsg(0, w.path["A"] + "x"), parent_node_id=U(0)), AddNode.Response, m.add_node
                else:   # the second node cannot be made
                    t = TreeStructure(name="bad", nodes=[leafmsg(1, [2, 3]), submsg(2, w.path["B"]), submsg(3, w.path["A"] + "x")], root_id=U(1))
                    q, R, f = LoadTree.Request(tree=t), LoadTree.Response, m.load_tree
                put(k, w.ask(lambda: f(q, R())))
        w.close()
        out.append(tr)
    return out


def judge(traces):
    def job(chunk, at):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        res = tlc.run("PublishTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or len(vs) != len(chunk):
            raise RuntimeError(f"PublishTrace failed:\n{res.out[-3000:]}")
        return [(at + v[0] - 1, v[1]) for v in vs if v[1]]
    size = max(1, -(-len(traces) // 8))
    return [x for r in tlc.parallel([lambda i=i: job(traces[i:i + size], i) for i in range(0, len(traces), size)]) for x in r]


def said(trace):
    return " ".join("".join([x["e"]["k"], *(str(v) for k, v in x["e"].items() if k != "k"), "!" if x["o"]["r"] != "ok" else ""]) for x in trace)


def run(check):
    g, states = explore(None)
    budget = 25 if not THOROUGH else 600
    with Pool(8) as pool:
        outs = pool.map(walk_all, [(g, SEED + i, i, 8, budget) for i in range(8)], chunksize=1)
        hist = [t for ts in pool.map(history, [(SEED * 100 + i, 40 if not THOROUGH else 1000, 60) for i in range(8)], chunksize=1) for t in ts]
    check.add(states=states, transitions=g.edges)
    traces = []
    for ts, fails, steps, cov in outs:
        traces += ts
        check.add(steps_replayed=steps, transitions_replayed=cov)
        for t, why in fails:
            check.violation(f"{said(t)[-300:]}: {why}", {"trace": t, "why": why})
    check.cov["exhaustive"] = sum(o[3] for o in outs) == g.edges
    check.add(traces_validated_against_impl=len(traces) + len(hist), recorded_steps=sum(map(len, traces + hist)))
    check.sample({"history": said(hist[0])})
    all_ = traces + hist
    for i, v in judge(all_):
        t = all_[i][:v[0]]
        check.violation(f"{said(t)[-300:]}: {json.dumps(v[1:])[:300]}", {"trace": t, "verdict": v})
    check.assumptions += ["the messages are judged when a request has been answered and the tick loop sleeps or has ended",
                          "a nested tree's data are those of its last tick while data are published"]
