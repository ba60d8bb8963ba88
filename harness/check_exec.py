"""C12, C14: execution commands and the tree state, and edits in every tree state.

1. TLC explores BTManager (ManagerMC): its guarantees, and every transition.
2. Every transition is taken on the real manager, with a root that answers what the transition says. C14: in every state, every
   editing request is sent.
3. Random histories of commands on random trees of real nodes are recorded and judged by TLC (ManagerTrace).
"""

import copy
import json
import os
import random
import tempfile

import check_edit as CE
import check_kernel as CK
import edit as E
import execute as X
import kernel as K
import replay
import tlc
from actnodes import PLAN
from pool import Pool
from common import SEED, THOROUGH
from ros_bt_py_interfaces.msg import NodeStructure
from ros_bt_py_interfaces.srv import LoadTreeFromPath

ACT = 11
QUIET = {"name": "t", "path": "", "pin": [], "pout": []}


def pool():
    p = E.plain_pool()
    p.intern(NodeStructure(module="actnodes", node_class="Act"))
    assert len(p.table) == ACT
    return p


def tree_of(root):
    if root == "NONE":
        return {"nodes": [], "wires": [], **QUIET}
    nodes = [CE.node(1, ACT, [2, 3, 5]), CE.node(2, CE.INT0), CE.node(3, CE.INT1), CE.node(5, CE.FLOW, [6]), CE.node(6, CE.FLOW)]
    if root == "MANY":
        nodes.append(CE.node(4, CE.FLOW))
    return {"nodes": nodes, "wires": [[2, "o", 3, "a"]], **QUIET}


def build(e, root):
    """Loads a tree; None or what went wrong."""
    r = e.do({"k": "load", "tree": tree_of(root)} if root != "NONE" else {"k": "clear"})
    e.watch()
    return None if r == "ok" else f"loading in the state editable answers {r}"


def edits(e):
    """Every kind of edit, each of them valid in a tree that may be edited."""
    o = e.look()
    ids = [n["id"] for n in o["nodes"]]
    yield "rename the tree", {"k": "rename", "name": "other"}
    if ids:
        yield "add", {"k": "add", "cfg": CE.FLOW, "name": "new", "kids": [], "parent": 1, "idx": -1, "plain": True, "new": 50}
        yield "add at an index", {"k": "add", "cfg": CE.FLOW, "name": "new", "kids": [], "parent": 1, "idx": 0, "new": 51}
        yield "remove", {"k": "remove", "id": 3, "all": False}
        yield "remove with children", {"k": "remove", "id": 5, "all": True}
        yield "move", {"k": "move", "id": 6, "parent": 1, "idx": 0}
        yield "replace", {"k": "replace", "old": 5, "new": 6}
        yield "morph", {"k": "morph", "id": 5, "cfg": CE.DECO, "name": "m"}
        yield "set options", {"k": "setopts", "id": 5, "rename": True, "name": "again", "opts": []}
        yield "set values", {"k": "setopts", "id": 2, "rename": False, "name": "", "opts": [x for x in e.pool.table[CE.INT1 - 1]["opts"] if x[0] == "n"]}
        yield "wire", {"k": "wire", "wires": [[3, "o", 2, "a"]], "ignore": False}
        yield "unwire", {"k": "unwire", "wires": [[2, "o", 3, "a"]], "ignore": False}
    else:
        yield "add", {"k": "add", "cfg": CE.FLOW, "name": "new", "kids": [], "parent": 0, "idx": -1, "plain": True, "new": 50}
    yield "clear", {"k": "clear"}
    yield "load", {"k": "load", "tree": dict(tree_of("UNINITIALIZED"), name="loaded")}
    yield "load from a file", {"k": "bad", "how": "path", "path": "file://" + FILE}
    if ids:
        yield "reload", {"k": "reload"}


FILE = None


def write_file():
    global FILE
    FILE = os.path.join(tlc.SCRATCH, f"edit{os.getpid()}.yaml")
    with open(FILE, "w") as f:
        f.write("version: 99.0.0\nname: from a file\nnodes:\n- module: editnodes\n  node_class: Flow\n  name: f\n"
                "  node_id: 00000000-0000-0000-0000-00000000abcd\n")


def edit_all(e, m):
    """C14 in the state m."""
    def look():
        return json.dumps([e.look(), sorted([e.n(i), n.name, str(n.state)] for i, n in e.m.nodes.items()), e.m.state], sort_keys=True)

    for what, op in list(edits(e)):
        before = look()
        r = e.do(op)
        if m["ts"] == "EDITABLE":
            if r != "ok":
                return f"'{what}' is answered with '{r}' in the state EDITABLE"
            bad = build(e, m["root"] if m["root"] in ("NONE", "MANY") else "UNINITIALIZED")
            if bad:
                return bad
        else:
            if r != "fail":
                return f"'{what}' is answered with '{r}' in the state {m['ts']}"
            if look() != before:
                return f"'{what}' changes the tree in the state {m['ts']}"
    return None


def explore():
    g = replay.Graph()

    def line(v):
        a, c, o, ok, ops, b = v
        g.edge(g.state(a), {"c": c, "o": o}, (ok, ops, b), g.state(b))

    res = tlc.run("ManagerMC", on_line=line)
    if not res.ok:
        raise RuntimeError("the specification violates its own properties:\n" + res.violation[-4000:])
    return g, res


def restart(m):
    return {"ts": "EDITABLE", "root": m["root"] if m["root"] in ("NONE", "MANY") else "UNINITIALIZED", "until": False}


def work(args):
    prop, root, part, parts, g, seed = args
    rng = random.Random(seed)
    p = pool()
    write_file()
    init = g.state({"ts": "EDITABLE", "root": root, "until": False})
    models = [json.loads(k) for k in g.ids]
    out = {"steps": 0, "covered": 0, "walks": 0, "fails": [], "edits": 0}
    cur, count = [None], [0]
    done = {}

    def new():
        if cur[0] is not None:
            cur[0].close()
        e = X.Runner(p)
        bad = build(e, root)
        if bad:
            raise RuntimeError(bad)
        cur[0] = e
        return e

    def step(e, op, exp):
        c, (ok, ops, m) = op["c"], exp
        if prop == "C14" and c == "edit":
            return edit_all(e, m)
        PLAN.clear()
        PLAN.update(op["o"])
        got, said = e.command(c)
        if c == "check":
            if prop != "C12" or not ok:
                pass
            elif got is not True:
                return f"refused: {got}"
        elif prop == "C12":
            if c != "loop" and got is not ok:
                return f"answers {got} instead of {ok}"
            if [x["k"] for x in e.log] != ops:
                return f"asks the root for {[x['k'] for x in e.log]} instead of {ops}"
        if prop == "C12":
            if e.m.state != m["ts"]:
                return f"the tree state is {e.m.state} instead of {m['ts']}"
            if e.root_state() != m["root"]:
                return f"the root is {e.root_state()} instead of {m['root']}"
            if got is True and said and c not in ("always", "until") and said != m["ts"]:
                return f"answers tree state {said}, but it is {m['ts']}"
            if e.states and e.states[-1] != m["ts"] and m["ts"] != "TICKING":
                return f"published the tree state {e.states[-1]}, but it is {m['ts']}"
            if c in ("shutdown", "check") and got is True and root == "UNINITIALIZED" and set(e.all_states()) != {"SHUTDOWN"}:
                return f"not shut down: {e.all_states()}"
            return None
        if e.m.state != m["ts"] or e.root_state() != m["root"]:
            raise Other
        return None

    if prop == "C14":
        # editing is a step of its own: refused it changes nothing, permitted the tree is loaded again afterwards
        for s, m in enumerate(models):
            b = restart(m) if m["ts"] == "EDITABLE" else m
            g.edge(s, {"c": "edit", "o": {}}, (True, [], m), g.state(b))
        mine = lambda s, i: g.out[s][i][0]["c"] == "edit"   # noqa: E731
    else:
        mine = lambda s, i: (s * 31 + i) % parts == part    # noqa: E731
    try:
        s, cov, w, fail = replay.cover(g, init, new, step, rng, max_len=60, mine=mine)
        out.update(steps=s, covered=cov, walks=w)
        if fail:
            out["fails"].append((root, fail[0], fail[1]))
    except Other:
        out["fails"].append((root, [], "other"))
    if cur[0] is not None:
        cur[0].close()
    return out


class Other(Exception):
    """Another property's violation."""


def record(args):
    seed, n = args
    rng = random.Random(seed)
    p = pool()
    types = sorted(K.FLOW) + K.ALL_DECO
    K.classes()
    traces = []
    for _ in range(n):
        tr = K.random_tree(rng, types, rng.choice([0, 1, 2, 3]), ("LEAF", "LEAF"), max_kids=3)
        if tr["n"] > 12:
            continue
        t = K.Tree(tr)
        e = X.Runner(p)
        for x in t.nodes:
            e.m.nodes[x.node_id] = x
        e.watch()
        steps = []
        for _ in range(rng.choice([10, 20, 30])):
            c = rng.choice(["loop"] * 6 + ["nothing", "once", "once", "once", "always", "always", "until", "until", "stop", "stop", "reset", "shutdown", "check"])
            if c == "loop" and e.m.state != "TICKING":
                c = rng.choice(["always", "until"])
            k = {"once": "tick", "always": "tick", "until": "tick", "loop": "tick", "stop": "untick", "reset": "reset", "check": "setup"}.get(c, "shutdown")
            op = K.random_op(rng, tr, k, 0, 0.1 if rng.random() < 0.3 else 0)
            t.op = op
            ok, said = e.command(c)
            steps.append({"c": c, "ok": ok if isinstance(ok, bool) else False, "said": said, "ops": list(e.log), "ts": e.m.state,
                          "root": e.root_state(), "all": e.all_states(), "seen": e.states[-1] if e.states and e.m.state != "TICKING" else e.m.state, "note": ok})
            if not isinstance(ok, bool):
                break
        e.closed = True
        t.op = K.random_op(rng, tr, "shutdown", 0, 0)
        for _ in range(3):
            if e.m.state != "EDITABLE":
                e.command("shutdown")
        traces.append({"root": "UNINITIALIZED", "steps": steps, "tree": CK.describe(tr)})
    return traces


def judge(traces):
    def job(chunk, at):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump([{"root": t["root"], "steps": [{k: v for k, v in s.items() if k != "note"} for s in t["steps"]]} for t in chunk], f)
        vs = []
        res = tlc.run("ManagerTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or len(vs) != len(chunk):
            raise RuntimeError(f"ManagerTrace failed:\n{res.out[-3000:]}")
        return [(at + v[0] - 1, v[1]) for v in vs if v[1]]
    size = max(1, -(-len(traces) // 8))
    return [x for r in tlc.parallel([lambda i=i: job(traces[i:i + size], i) for i in range(0, len(traces), size)]) for x in r]


def run(check):
    g, res = explore()
    check.add(states=res.distinct, transitions=g.edges)
    parts = 6 if check.prop == "C12" else 1
    jobs = [(check.prop, "UNINITIALIZED", i, parts, g, SEED + i) for i in range(parts)]
    if check.prop == "C14":
        jobs += [("C14", "UNINITIALIZED", 0, 1, g, SEED * 10 + i) for i in range(1, 8)]
    jobs += [(check.prop, r, 0, 1, g, SEED) for r in ("NONE", "MANY")]
    if THOROUGH:
        jobs += [(p, r, i, n, g, SEED * 100 + k) for k in range(5) for p, r, i, n, g, _ in jobs]
    with Pool(8) as pl:
        a = pl.map_async(work, jobs, chunksize=1)
        b = pl.map_async(record, [(SEED * 500 + i, 120 if not THOROUGH else 1500) for i in range(8)] if check.prop == "C12" else [], chunksize=1)
        outs, traces = a.get(), [t for ts in b.get() for t in ts]
    for o in outs:
        check.add(steps_replayed=o["steps"], transitions_replayed=o["covered"], walks=o["walks"])
        for root, ops, why in o["fails"]:
            if why == "other":
                check.assumptions.append("some transitions end in another state than specified (C12), the rest of that walk was not explored")
                continue
            check.violation(f"tree {root}: after {' '.join(x['c'] for x in ops)}: {why}", {"root": root, "ops": ops, "why": why})
    if check.prop == "C12":
        check.add(traces_validated_against_impl=len(traces), recorded_steps=sum(len(t["steps"]) for t in traces))
        if traces:
            check.sample({"tree": traces[0]["tree"], "steps": traces[0]["steps"][:4]})
        for i, v in judge(traces):
            t = traces[i]
            k = v[0]
            check.violation(f"{t['tree']}: {' '.join(s['c'] for s in t['steps'][:k])}: {v[1]} ({t['steps'][k - 1]['note']})", {"trace": t, "verdict": v})
    else:
        check.add(traces_validated_against_impl=sum(o["walks"] for o in outs))
        import check_race
        check_race.scan(check, 20 if not THOROUGH else 300, only="edit")
        check.sample({"root": jobs[0][1], "edit in": "every state of ManagerMC"})
    check.assumptions += ["commands do not overlap (C13)"]
