"""C26: subtrees. See BTSubtree.

TLC explores every history of small trees with subtrees, together with the same trees with their subtrees inlined (SubtreeMC); its
transitions are replayed on real trees, and random histories of larger ones are judged by TLC (SubtreeTrace)."""

import contextlib
import json
import os
import random
import shutil
import tempfile
import time
import uuid

import rosidl_runtime_py

import check_data as CD
import datanodes as DN
import edit as E
import replay
import tlc
from pool import Pool, Refusal
from common import SEED, THOROUGH
from ros_bt_py.data_types import GENERIC_TYPE_MAP, GenericType, PathType, get_iotype_for_dict
from ros_bt_py.ros_nodes.subtree import Subtree
from ros_bt_py.subtree_manager import SubtreeManager
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeIO, NodeStructure, TreeStructure, Wiring
from ros_bt_py_interfaces.srv import AddNode, LoadTree

ELEMENT = next(k for k, v in GENERIC_TYPE_MAP[list].items() if isinstance(v, dict))
BORDER = {"int": GENERIC_TYPE_MAP[int], "str": GENERIC_TYPE_MAP[str], "float": GENERIC_TYPE_MAP[float], "bool": GENERIC_TYPE_MAP[bool],
          "list": {**GENERIC_TYPE_MAP[list], ELEMENT: GENERIC_TYPE_MAP[int]}, "strings": {**GENERIC_TYPE_MAP[list], ELEMENT: GENERIC_TYPE_MAP[str]},
          "dict": {**GENERIC_TYPE_MAP[dict], ELEMENT: GENERIC_TYPE_MAP[int]}}


for _k, _v in BORDER.items():       # the types of scripted slots are those of the marks
    DN.TYPES["g" + _k] = lambda _v=_v, **kw: get_iotype_for_dict({**_v, **kw}).unwrap()


def text(tree):
    return "version: 1.0.0\n" + rosidl_runtime_py.message_to_yaml(tree)


def option(key, c, value):
    c.set_value(value).unwrap()
    return NodeIO(key=key, type=c.serialize_type(), serialized_value=c.serialize_value())


class Driver(CD.Driver):
    def __init__(self, tree, kinds, rng, alias=False):
        self.tree, self.kinds, self.rng, self.alias = tree, kinds, rng, alias
        n = len(tree["kids"])
        twin = tree.get("twin") or [0] * n
        self.dir = tempfile.mkdtemp(dir=tlc.SCRATCH)
        self.uid = []
        for i in range(n):
            # ids of the inner tree may be those of the outer one
            self.uid.append(self.uid[twin[i] - 1] if twin[i] and tree["owner"][i] != tree["owner"][twin[i] - 1] else uuid.uuid4())
        self.path = [f"file://{self.dir}/{(twin[i] or i + 1)}.yaml" for i in range(n)]
        try:
            for b in range(n, 0, -1):
                if tree["kind"][b - 1] == "sub" and not twin[b - 1]:
                    with open(self.path[b - 1][7:], "w") as f:
                        f.write(text(self.message(b)))
            self.subs = SubtreeManager()
            self.m = TreeEditManager(ros_node=E.ros(), subtree_manager=self.subs)
            r = self.m.load_tree(LoadTree.Request(tree=self.message(0)), LoadTree.Response())
        finally:
            shutil.rmtree(self.dir)
        if not r.success:
            raise Refusal("a valid tree is not loaded: " + r.error_message)
        self.m.data_flow_manager.initialize(self.m.nodes, self.m.wirings)
        self.nodes = [None] * n
        self.num = {}
        for o in [0] + [b for b in range(1, n + 1) if tree["kind"][b - 1] == "sub"]:
            m = self.nodes[o - 1].manager if o else self.m
            for i in range(n):
                if tree["owner"][i] == o:
                    self.nodes[i] = m.nodes[self.uid[i]]
                    self.num[id(self.nodes[i])] = i + 1
        self.frames = []
        self.odd = ""

    def slot(self, n, k):
        """The name of slot k of node n in the code."""
        if self.tree["kind"][n - 1] != "sub":
            return k
        m = int(k[1:])
        return f"{self.uid[m - 1]}.{self.tree['kind'][m - 1]}"

    def message(self, owner):
        t = self.tree
        mine = [i for i in range(len(t["kids"])) if t["owner"][i] == owner]
        ns = []
        for i in mine:
            m = NodeStructure(name=f"n{i + 1}", node_id=str(self.uid[i]), max_children=-1)
            k = t["kind"][i]
            if k in ("in", "out"):
                m.module, m.node_class = "ros_bt_py.nodes.io", {"in": "IOInput", "out": "IOOutput"}[k]
                m.inputs = [option("io_type", GenericType(), BORDER[self.kinds[i + 1, "in"]])]
            elif k == "sub":
                m.module, m.node_class = "ros_bt_py.ros_nodes.subtree", "Subtree"
                m.inputs = [option("subtree_path", PathType(allow_dynamic=False), self.path[i])]
            else:
                words = lambda ks: " ".join(f"{x}:g{self.kinds[i + 1, x]}" for x in ks)
                m.module, m.node_class = "datanodes", "DataFlow" if t["flow"][i] else "DataLeaf"
                m.child_ids = [str(self.uid[c - 1]) for c in t["kids"][i]]
                m.inputs = [option("takes", DN.StringType(allow_dynamic=False), words(t["ins"][i])), option("gives", DN.StringType(allow_dynamic=False), words(t["outs"][i]))]
            ns.append(m)
        loc = lambda n, k, o: NodeDataLocation(node_id=str(self.uid[n - 1]), data_kind="outputs" if o else "inputs", data_key=self.slot(n, k))
        ws = [Wiring(source=loc(w[0], w[1], True), target=loc(w[2], w[3], False)) for w in t["wires"] if w[0] - 1 in mine]
        self.rng.shuffle(ws)
        inside = {c for i in mine for c in (t["kids"][i] if t["kind"][i] != "sub" else [])}
        root = [i for i in mine if i + 1 not in inside]
        return TreeStructure(name=f"t{owner}", nodes=ns, data_wirings=ws, tick_frequency_hz=10.0, root_id=str(self.uid[root[0]]) if root else "")

    def look(self):
        out = []
        for i, n in enumerate(self.nodes):
            ins = {}
            for k in self.tree["ins"][i]:
                x = self.slot(i + 1, k)
                ins[k] = {"v": self.text(n.inputs.get_value(x)), "u": bool(n.inputs.any_updated(x).unwrap())}
            out.append({"res": str(getattr(n.state, "value", n.state)), "inp": ins, "out": {k: self.text(n.node_config.outputs[self.slot(i + 1, k)].get_value()) for k in self.tree["outs"][i]}})
        return out

    def begin(self, e):
        f = {"e": e, "entered": 0, "end": None, "depth": len(self.frames)}
        self.frames.append(f)
        r = self.nodes[e["n"] - 1].tick()
        self.frames.pop()
        if not f["entered"]:
            self.seen(e, 0)
        elif f["end"]:
            x = f["end"]
            got = str(getattr(r.unwrap(), "value", r.unwrap())) if r.is_ok() else "err"
            if got != (x["r"] if x["k"] == "end" else "err"):
                self.odd = f"node {e['n']} reports {got}"
            self.seen(x, None)

    def inside(self, node):
        f = self.frames[-1]
        if f["entered"]:
            self.odd = f"node {f['e']['n']} is ticked more than once"
            return Ok("SUCCEEDED")
        f["entered"] = self.num[id(node)]
        self.seen(f["e"], f["entered"])
        while (e := self.feed()) is not None:
            k = e["k"]
            if k in ("end", "err"):
                f["end"] = e
                return Ok(e["r"]) if k == "end" else DN.ERROR
            if k == "begin":
                self.begin(e)
            elif k == "write":
                v = json.loads(e["v"])
                node.outputs.set_value(e["o"], v).unwrap()
                if self.alias:
                    self.spoil(v)
                self.seen(e, None)
            else:
                getattr(self.nodes[e["n"] - 1], k)()
                self.seen(e, None)
        return Ok("RUNNING")


# ------------------------------------------------------------------------------------------------ exhaustive

def shape(spec, wires, twin=None):
    """spec: per node (kind, owner, kids)."""
    n = len(spec)
    kind, owner, kids = [s[0] for s in spec], [s[1] for s in spec], [list(s[2]) for s in spec]
    key = [f"k{i + 1}" if k in ("in", "out") else "" for i, k in enumerate(kind)]
    ins = [sorted({w[3] for w in wires if w[2] == i + 1}) for i in range(n)]
    outs = [sorted({w[1] for w in wires if w[0] == i + 1}) for i in range(n)]
    for i, k in enumerate(kind):
        if k in ("in", "out"):
            ins[i], outs[i] = ["in"], ["out"]
        if k == "sub":
            ins[i] = [key[m] for m in range(n) if owner[m] == i + 1 and kind[m] == "in"]
            outs[i] = [key[m] for m in range(n) if owner[m] == i + 1 and kind[m] == "out"]
    return {"kids": kids, "kind": kind, "owner": owner, "key": key, "ins": ins, "outs": outs, "wires": wires, "flow": [k == "flow" for k in kind], "twin": twin or [0] * n}


ASKS = ["begin", "reset", "untick"]


def cases():
    out = []

    def add(spec, wires, results=("SUCCEEDED",), errors=False, twin=None, asks=ASKS, again=True):
        out.append({**shape(spec, wires, twin), "results": list(results), "errors": errors, "asks": asks, "again": again})
    R3 = ("SUCCEEDED", "FAILED", "RUNNING")
    add([("flow", 0, [2]), ("sub", 0, [3]), ("leaf", 2, [])], [], R3, True)                                             # results
    add([("flow", 0, [2]), ("sub", 0, [3]), ("flow", 2, [4, 5]), ("leaf", 2, []), ("leaf", 2, [])], [], R3, True)
    add([("flow", 0, [2, 3]), ("sub", 0, [4]), ("leaf", 0, []), ("sub", 2, [5]), ("leaf", 4, [])], [], R3, True)        # a subtree in a subtree
    add([("flow", 0, [2, 3]), ("sub", 0, [4]), ("sub", 0, [5]), ("leaf", 2, []), ("leaf", 3, [])], [], R3, True, [0, 0, 2, 0, 4])      # twice the same
    add([("flow", 0, [2, 3]), ("leaf", 0, []), ("sub", 0, [4]), ("in", 3, [])], [[2, "x", 3, "k4"]])                     # only a mark
    add([("flow", 0, [2, 3]), ("leaf", 0, []), ("sub", 0, [4]), ("flow", 3, [5, 6]), ("in", 3, []), ("leaf", 3, [])],
        [[2, "x", 3, "k5"], [5, "out", 6, "a"]], asks=["begin", "reset"], again=False)                                                           # in
    add([("flow", 0, [2, 3]), ("sub", 0, [4]), ("leaf", 0, []), ("flow", 2, [5, 6]), ("leaf", 2, []), ("out", 2, [])],
        [[5, "x", 6, "in"], [2, "k6", 3, "a"]], asks=["begin"], again=False)                                                            # out
    add([("flow", 0, [2, 3]), ("sub", 0, [4]), ("leaf", 0, []), ("flow", 2, [5]), ("out", 2, [])], [[4, "x", 5, "in"], [2, "k5", 3, "a"]])
    add([("flow", 0, [2, 3, 4]), ("leaf", 0, []), ("sub", 0, [5]), ("leaf", 0, []), ("flow", 3, [6, 7]), ("in", 3, []), ("out", 3, [])],
        [[2, "x", 3, "k6"], [6, "out", 7, "in"], [3, "k7", 4, "a"]], asks=["begin"], again=False)                           # through
    add([("flow", 0, [2, 3]), ("leaf", 0, []), ("sub", 0, [4]), ("flow", 3, [5, 6]), ("in", 3, []), ("sub", 3, [7]), ("in", 6, [])],
        [[2, "x", 3, "k5"], [5, "out", 6, "k7"]], asks=["begin", "reset"])                                              # two borders
    add([("flow", 0, [2, 3]), ("sub", 0, [4]), ("leaf", 0, []), ("flow", 2, [5, 6]), ("sub", 2, [7]), ("out", 2, []), ("flow", 5, [8]), ("out", 5, [])],
        [[7, "x", 8, "in"], [5, "k8", 6, "in"], [2, "k6", 3, "a"]], asks=["begin"])
    add([("flow", 0, [2, 3]), ("sub", 0, [4]), ("sub", 0, [6]), ("flow", 2, [5]), ("out", 2, []), ("in", 3, [])],
        [[4, "x", 5, "in"], [2, "k5", 3, "k6"]], asks=["begin", "reset"])                                               # from one into the next
    add([("flow", 0, [2, 3]), ("sub", 0, [4]), ("sub", 0, [5]), ("in", 2, []), ("in", 3, [])], [[1, "x", 2, "k4"], [1, "y", 3, "k5"]], asks=["begin"], again=False, twin=[0, 0, 2, 0, 4])
    return out


def same(exp, obs, stack=()):
    for i, (x, o) in enumerate(zip(exp, obs)):
        if x["st"] == "broken":
            continue
        if x["res"] not in ("off", o["res"]) and i + 1 not in stack:
            return f"node {i + 1}: {o['res']}, should be {x['res']}"
        if x["st"] != "on":
            continue
        for k, y in (x["inp"] or {}).items():
            if o["inp"][k] != y:
                return f"node {i + 1}: " + ("input value" if o["inp"][k]["v"] != y["v"] else "updated flag")
        for k, y in (x["out"] or {}).items():
            if o["out"][k] != y:
                return f"node {i + 1}: output value"
    return None


def walk(c, ops, exps, seed):
    rng = random.Random(seed)
    with contextlib.redirect_stdout(E.NOWHERE):
        d = Driver(c, CD.KINDS2, rng)
    it = iter(range(len(ops)))
    cur = [None]
    bad = []

    def feed():
        cur[0] = next(it, None)
        return None if cur[0] is None or bad else ops[cur[0]]

    def seen(e, entered):
        if bad:
            return
        i = next(j for j in range(cur[0] if cur[0] is not None else len(ops) - 1, -1, -1) if ops[j] is e)
        (a, b), see = exps[i]
        if d.odd:
            bad.append((i, d.odd))
        elif entered is not None and (entered != 0) != (len(b["stack"]) > len(a["stack"])):
            bad.append((i, f"a tick of node {e['n']} is {'made' if entered else 'refused'}"))
        elif entered and entered != b["stack"][-1]:
            bad.append((i, f"a tick of node {e['n']} reaches {entered} instead of {b['stack'][-1]}"))
        else:
            why = same(see, d.look(), b["stack"])
            if why:
                bad.append((i, why))
    with contextlib.redirect_stdout(E.NOWHERE):
        d.run(feed, seen)
    return bad[0] if bad else None


def work(args):
    num, seed, budget = args
    c = cases()[num]
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump({k: v for k, v in c.items() if k not in ("twin", "flow")}, f)
    g = replay.Graph()

    def line(v):
        a, e, b, see = v
        ka, kb = g.state(a), g.state(b)
        g.edge(ka, e, ((a, b), see), kb)
        if g.init == [] and a["res"][0] == "off":
            g.init = ka
    res = tlc.run("SubtreeMC", env={"CASE": path}, on_line=line, heap="3g")
    os.unlink(path)
    out = {"case": num, "states": res.distinct, "transitions": g.edges, "model": None if res.ok else res.violation or res.out[-3000:], "fails": []}
    if not res.ok:
        return out
    pend = []
    rng = random.Random(seed)
    end = time.time() + budget

    def flush():
        if pend:
            ops, exps = [p[0] for p in pend], [p[1] for p in pend]
            bad = walk(c, ops, exps, rng.random())
            if bad:
                out["fails"].append((ops[:bad[0] + 1], bad[1]))
        pend.clear()

    def new():
        flush()
        return None

    def step(_, op, obs):
        pend.append((dict(op), obs))
        return None
    steps, cov, walks, _ = replay.cover(g, g.init, new, step, rng, max_len=250, clock=lambda: time.time() > end or len(out["fails"]) > 5)
    flush()
    return {**out, "steps": steps, "covered": cov, "walks": walks}


# ------------------------------------------------------------------------------------------------ recorded

def random_tree(rng):
    spec = []
    kinds = {}

    def grow(owner, depth):
        """A tree of up to five nodes; returns its root."""
        mine = []

        def node(k, kids=()):
            spec.append([k, owner, list(kids)])
            mine.append(len(spec))
            return len(spec)
        if depth and rng.random() < 0.15:
            return node(rng.choice(["leaf", "in", "out"]))
        root = node("flow")
        flows = [root]
        for _ in range(rng.randint(1, 5)):
            k = rng.choice(["leaf", "flow"] + (["in", "out"] * 2 if depth else ["in"]) + (["sub"] * 3 if depth < 2 else ["leaf"]))
            x = node(k)
            spec[rng.choice(flows) - 1][2].append(x)
            if k == "flow":
                flows.append(x)
            if k == "sub":
                spec[x - 1][2].append(grow(x, depth + 1))
        return root
    grow(0, 0)
    n = len(spec)
    if n > 16 or not any(s[0] == "sub" for s in spec):
        return None
    types = rng.sample(list(BORDER), 2)
    for i, s in enumerate(spec):
        if s[0] in ("in", "out"):
            kinds[i + 1, "in"] = kinds[i + 1, "out"] = t = rng.choice(types)
            kinds[s[1], f"k{i + 1}"] = t
    wires = []
    for o in {s[1] for s in spec}:
        mine = [i + 1 for i, s in enumerate(spec) if s[1] == o]
        srcs, dsts = [], []
        for i in mine:
            k = spec[i - 1][0]
            if k in ("flow", "leaf"):
                for x in "xy":
                    kinds[i, x] = rng.choice(types)
                    srcs.append((i, x))
                if rng.random() < 0.4:
                    kinds[i, "a"] = rng.choice(types)
                    dsts.append((i, "a"))
            elif k == "sub":
                srcs += [(i, f"k{m + 1}") for m, s in enumerate(spec) if s[1] == i and s[0] == "out"]
                dsts += [(i, f"k{m + 1}") for m, s in enumerate(spec) if s[1] == i and s[0] == "in"]
            else:
                srcs.append((i, "out"))
                if k == "out" or o == 0:
                    dsts.append((i, "in"))
        for d in dsts:
            fit = [x for x in srcs if kinds[x] == kinds[d] and x[0] != d[0]]
            early = [x for x in fit if x[0] < d[0]]
            for s in rng.sample(fit, min(len(fit), rng.choice([1, 1, 1, 2]))) if rng.random() < 0.4 or not early else [rng.choice(early)]:
                if not any(w[0] == s[0] and w[2:] == [d[0], d[1]] for w in wires):
                    wires.append([s[0], s[1], d[0], d[1]])
    return shape([tuple(s) for s in spec], wires), kinds


def record(args):
    seed, count, length = args
    rng = random.Random(seed)
    traces = []
    while len(traces) < count:
        x = random_tree(rng)
        if x is None:
            continue
        tree, kinds = x
        with contextlib.redirect_stdout(E.NOWHERE):
            d = Driver(tree, kinds, rng, alias=rng.random() < 0.5)
            evs, stack, wrote, ready = [], [], [], [False]

            def feed():
                if len(evs) + len(stack) >= length or d.odd:
                    return None
                if not stack:
                    if not ready[0]:
                        ready[0] = True
                        return {"k": "setup"}
                    r = rng.random()
                    if r < 0.04:
                        ready[0] = False
                        return {"k": "shutdown"}
                    return {"k": "begin" if r < 0.9 else rng.choice(["reset", "untick"]), "n": 1}
                top = stack[-1]
                r = rng.random()
                kids, outs = tree["kids"][top - 1], tree["outs"][top - 1]
                if wrote[-1] == 0 and rng.random() < 0.015:
                    return {"k": "err"}
                if outs and wrote[-1] < 2 and r < 0.5:
                    o = rng.choice(outs)
                    wrote[-1] += 1
                    return {"k": "write", "o": o, "v": json.dumps(rng.choice(DN.VALUES[kinds[top, o]]), sort_keys=True)}
                if kids and r < 0.9:
                    later = [k for k in kids if k > seqs[-1]]
                    k = later[0] if later and rng.random() < 0.8 else rng.choice(kids)
                    if rng.random() < 0.94:
                        seqs[-1] = k
                        return {"k": "begin", "n": k}
                    return {"k": rng.choice(["reset", "untick"]), "n": k}
                return {"k": "end", "r": rng.choice(["SUCCEEDED", "SUCCEEDED", "FAILED", "RUNNING"])}
            seqs = []

            def seen(e, entered):
                if e["k"] == "begin" and entered:
                    stack.append(entered)
                    wrote.append(0)
                    seqs.append(0)
                if e["k"] in ("end", "err") and stack:
                    stack.pop()
                    wrote.pop()
                    seqs.pop()
                evs.append({**e, "seen": entered or 0, "odd": d.odd, "obs": d.look()})
            d.run(feed, seen)
        traces.append({"tree": tree, "events": evs})
    return traces


# ------------------------------------------------------------------------------------------------ loading

GOOD = shape([("flow", 0, [2]), ("leaf", 0, [])], [])


def loads(args):
    """Trees with subtrees that can and cannot be loaded."""
    seed, count = args
    rng = random.Random(seed)
    out = []
    d = tempfile.mkdtemp(dir=tlc.SCRATCH)
    with contextlib.redirect_stdout(E.NOWHERE):
        outer = Driver(GOOD, CD.KINDS2, rng)
    good = text(outer.message(0))
    sub = lambda p: text(TreeStructure(name="s", tick_frequency_hz=1.0, root_id=str(uuid.UUID(int=5)), nodes=[NodeStructure(
        module="ros_bt_py.ros_nodes.subtree", node_class="Subtree", name="s", node_id=str(uuid.UUID(int=5)), inputs=[option("subtree_path", PathType(allow_dynamic=False), p)])]))
    f = lambda n: f"file://{d}/{n}"
    files = {"good": (good, True), "class": (good.replace("DataLeaf", "DataLoaf"), False), "module": (good.replace("module: datanodes", "module: nodatanodes"), False),
             "child": (good.replace(str(outer.uid[1]), str(uuid.uuid4()), 1), False), "twice": (good.replace(str(outer.uid[1]), str(outer.uid[0])), False),
             "text": ("no tree", False), "cut": (good[:len(good) // 2] + "\n: [", False), "empty": ("", False),
             "self": (sub(f("self")), False), "ping": (sub(f("pong")), False), "pong": (sub(f("ping")), False), "of good": (sub(f("good")), True), "of of good": (sub(f("of good")), True),
             "of bad": (sub(f("class")), False), "of missing": (sub(f("nothing")), False)}
    for k, (t, _) in files.items():
        with open(f"{d}/{k}", "w") as fh:
            fh.write(t)
    targets = [(k, f(k), ok) for k, (_, ok) in files.items()] + [("missing", f("nothing"), False), ("folder", f(""), False), ("package", "package://no_such_package/x", False), ("scheme", "http://x/y", False)]
    with contextlib.redirect_stdout(E.NOWHERE):
        m = outer.m
        for _ in range(count):
            what, path, ok = rng.choice(targets)
            node = NodeStructure(module="ros_bt_py.ros_nodes.subtree", node_class="Subtree", name="s", inputs=[NodeIO(key="subtree_path", type=PathType(allow_dynamic=False).serialize_type(), serialized_value=json.dumps(path))])
            look = lambda: [E.canon(m.structure_to_msg()), sorted(map(E.canon, outer.subs.get_subtree_structures())), sorted(str(k) for k in outer.subs.nested_subtree_managers)]
            before = look()
            how = rng.choice(["add", "load"])
            try:
                with E.limit(10):
                    if how == "add":
                        r = m.add_node(AddNode.Request(node=node, parent_node_id=str(outer.uid[0])), AddNode.Response())
                    else:
                        t = outer.message(0)
                        node.node_id = str(uuid.uuid4())
                        t.nodes[0].child_ids = [*t.nodes[0].child_ids, node.node_id]
                        t.nodes = [*t.nodes, node]
                        r = m.load_tree(LoadTree.Request(tree=t), LoadTree.Response())
                r = "ok" if r.success else "error"
            except E.Hang:
                r = "does not answer"
            except Exception as ex:
                r = "raises " + repr(ex)[:100]
            out.append({"what": f"{how} {what}", "valid": ok, "r": r, "before": before, "after": look(), "tree": GOOD})
            if r == "ok" and len(m.nodes) > 6:
                outer = Driver(GOOD, CD.KINDS2, rng)
                m = outer.m
    shutil.rmtree(d)
    return out


def judge(traces):
    def job(chunk, at):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        res = tlc.run("SubtreeTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or len(vs) != len(chunk):
            raise RuntimeError(f"SubtreeTrace failed:\n{res.out[-3000:]}")
        return [(at + v[0] - 1, v[1]) for v in vs if v[1]]
    size = max(1, -(-len(traces) // 8))
    return [x for r in tlc.parallel([lambda i=i: job(traces[i:i + size], i) for i in range(0, len(traces), size)]) for x in r]


def run(check):
    jobs = [(i, SEED + i, 14 if not THOROUGH else 600) for i in range(len(cases()))]
    with Pool(8) as pool:
        outs = pool.map(work, jobs, chunksize=1)
        traces = [t for ts in pool.map(record, [(SEED * 100 + i, 40 if not THOROUGH else 1000, 60) for i in range(8)], chunksize=1) for t in ts]
        loaded = [t for ts in pool.map(loads, [(SEED * 100 + i, 40 if not THOROUGH else 500) for i in range(8)], chunksize=1) for t in ts]
    whole = True
    for o in outs:
        if o["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + o["model"][-3000:])
        check.add(states=o["states"], transitions=o["transitions"], steps_replayed=o["steps"], transitions_replayed=o["covered"], walks=o["walks"])
        whole = whole and o["covered"] == o["transitions"]
        for ops, why in o["fails"]:
            c = cases()[o["case"]]
            check.violation(f"{describe(c)}: {CD.short(ops)[-300:]}: {why}", {"case": c, "events": ops, "why": why})
    check.cov["exhaustive"] = whole
    check.add(traces_validated_against_impl=len(traces) + len(loaded), recorded_steps=sum(len(t["events"]) for t in traces) + len(loaded))
    check.sample({"tree": traces[0]["tree"], "events": CD.short(traces[0]["events"])[:400]})
    all_ = traces + loaded
    for i, v in judge(all_):
        t = all_[i]
        if "what" in t:
            check.violation(f"subtree: {json.dumps(v[1])[:200]}", {"load": t})
        else:
            check.violation(f"{describe(t['tree'])}: {CD.short(t['events'][:v[0]])[-300:]}: {json.dumps(v[1])[:300]}", {"trace": {**t, "events": t["events"][:v[0]]}, "verdict": v})
    check.assumptions += ["inner and outer nodes are written for the check: they write and tick what a script says"]


def describe(c):
    return " ".join(f"{i + 1}:{k}@{o}{c['kids'][i] or ''}" for i, (k, o) in enumerate(zip(c["kind"], c["owner"])))
