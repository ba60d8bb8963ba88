"""C29: taking parts out of a tree. See BTExtract.

TLC explores every small tree with wires and every request (ExtractMC); the requests are sent to real managers that hold these trees.
There and in random editing histories of the shipped trees, also while the tree is executed, TLC judges the answers and what becomes of
them when they are loaded (ExtractTrace)."""

import collections
import contextlib
import copy
import json
import os
import random
import tempfile
import time

import check_edit as CE
import check_load as CL
import edit as E
import tlc
from common import SEED, THOROUGH
from pool import Pool
from ros_bt_py_interfaces.srv import ControlTreeExecution as CT
from ros_bt_py_interfaces.srv import GenerateSubtree, GetSubtree, LoadTree


def observe(e, s):
    """A tree message."""
    return {"nodes": [{"id": e.n(x.node_id), "cfg": e.pool.known(x), "name": x.name, "kids": [e.n(c) for c in x.child_ids]} for x in s.nodes],
            "wires": [[e.n(w.source.node_id), w.source.data_key, e.n(w.target.node_id), w.target.data_key] for w in s.data_wirings],
            "name": s.name, "path": s.path, "root": e.n(s.root_id) if s.root_id else 0,
            "pin": [[e.n(x.node_id), x.data_key] for x in s.public_inputs], "pout": [[e.n(x.node_id), x.data_key] for x in s.public_outputs]}


NOTHING = {"nodes": [], "wires": [], "name": "", "path": "", "root": 0, "pin": [], "pout": []}


def ask(e, op, load=True):
    with contextlib.redirect_stdout(E.NOWHERE):
        return asked(e, op, load)


def asked(e, op, load):
    e.m.publish_structure()
    before = e.look()
    if op["k"] == "get":
        f, req, resp = e.m.get_subtree, GetSubtree.Request(root_id=e.u(op["id"])), GetSubtree.Response()
    else:
        f, req, resp = e.m.generate_subtree, GenerateSubtree.Request(node_ids=[e.u(i) for i in op["ids"]]), GenerateSubtree.Response()
    r = CL.answer(f, req, resp)
    e.m.publish_structure()
    out = {"op": op, "before": before, "r": r, "after": e.look(), "part": NOTHING, "lr": "", "loaded": NOTHING}
    if r == "ok":
        msg = copy.deepcopy(resp.subtree if op["k"] == "get" else resp.tree)
        out["part"] = observe(e, msg)
        if load and msg.nodes:
            f = CL.other(e)
            f.m.publish_structure()
            out["lr"] = CL.answer(f.m.load_tree, LoadTree.Request(tree=msg), LoadTree.Response())
            out["loaded"] = {k: v for k, v in f.look().items() if k != "links"}
    return out


def empty(pool):
    e = E.Editor(pool)
    with contextlib.redirect_stdout(E.NOWHERE):
        e.m.publish_structure()
    return e


def replayed(args):
    """Real trees for those of the model."""
    groups, seed, budget = args
    rng = random.Random(seed)
    pool = E.plain_pool()
    conf = {1: CE.MIX, 2: CE.STR0}
    end = time.monotonic() + budget
    traces, n = [], 0
    rng.shuffle(groups)
    for tree, ops in groups:
        if time.monotonic() > end:
            break
        e = empty(pool)
        if tree["nodes"]:
            t = dict(tree, nodes=[dict(x, cfg=conf[x["cfg"]]) for x in tree["nodes"]])
            if e.do({"k": "load", "tree": t}) != "ok":
                continue
        gens = [o for o in ops if o["k"] == "gen"]
        for op in [o for o in ops if o["k"] == "get"] + rng.sample(gens, min(len(gens), 6 if not THOROUGH else 32)):
            traces.append(ask(e, op, rng.random() < 0.3))
            n += 1
    return pool.table, traces


def recorded(args):
    seed, n, which = args
    rng = random.Random(seed)
    pool, seeds = CE.rich_pool()
    traces = []

    def asks(e, o, many):
        ids = [x["id"] for x in o["nodes"]]
        for _ in range(many):
            if rng.random() < 0.6:
                op = {"k": "get", "id": rng.choice(ids) if ids and rng.random() < 0.92 else rng.choice([99, -1])}
            else:
                some = rng.sample(ids, rng.randrange(0, min(len(ids), 5) + 1))
                if rng.random() < 0.3 and some:    # a node with its ancestors
                    up = {c: x["id"] for x in o["nodes"] for c in x["kids"]}
                    i = some[0]
                    some = [i]
                    while i in up and up[i] not in some:
                        i = up[i]
                        some.append(i)
                if rng.random() < 0.1:
                    some.append(rng.choice([99, -1]))
                op = {"k": "gen", "ids": rng.choice([some, ids]) if rng.random() < 0.2 else some}
            traces.append(ask(e, op, rng.random() < 0.5))

    for k, (p, t) in enumerate(CE.shipped()):
        if k % 8 != which:
            continue
        e = E.Editor(pool)
        if CL.answer(e.m.load_tree, LoadTree.Request(tree=t), LoadTree.Response()) != "ok":
            continue
        for x in e.published.tree_structures[-1].nodes:
            pool.intern(x)
        asks(e, e.look(), 6)
    for h in range(n):
        cfgs = list(range(1, 11)) if rng.random() < 0.5 else rng.sample(seeds, min(8, len(seeds))) + [CE.FLOW, CE.DECO, CE.MIX]
        g = CE.Gen(rng, pool, cfgs)
        e = empty(pool)
        o = e.look()
        for j in range(25):
            op = g.op(o)
            if op["k"] in ("clear", "bad", "look"):
                continue
            e.do(op)
            o = e.look()
            if op["k"] == "load":
                g.fresh = max([g.fresh] + [x["id"] for x in o["nodes"] if x["id"] < 90])
            if j % 6 == 5:
                for x in e.published.tree_structures[-1].nodes:
                    pool.intern(x)
                o = e.look()
                asks(e, o, 3)
        if o["root"] and CL.runnable(e):
            for c in rng.sample([CT.Request.TICK_ONCE, CT.Request.RESET, CT.Request.TICK_ONCE], 2):
                CL.answer(e.m.control_execution, CT.Request(command=c), CT.Response())
            asks(e, o, 2)
            CL.answer(e.m.control_execution, CT.Request(command=CT.Request.SHUTDOWN), CT.Response())
    return pool.table, traces


def judge(groups):
    def job(n, table, traces, base):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump({"table": CE.compact(table), "traces": traces}, f)
        verdicts = []
        res = tlc.run("ExtractTrace", env={"TRACES": path}, on_line=verdicts.append, heap="2g")
        os.unlink(path)
        if not res.ok or len(verdicts) != len(traces):
            raise RuntimeError(f"ExtractTrace failed ({len(verdicts)} of {len(traces)} verdicts):\n{res.out[-3000:]}")
        return [(n, base + v[0] - 1, v[1]) for v in verdicts if v[1]]
    jobs = [(lambda n=n, t=t, x=x, b=b: job(n, t, x[b:b + 1500], b)) for n, (t, x) in enumerate(groups) for b in range(0, len(x), 1500)]
    return [x for r in tlc.parallel(jobs) for x in r]


def run(check):
    edges = collections.defaultdict(list)

    def line(v):
        edges[json.dumps(v[0], sort_keys=True)].append(v[1])

    res = tlc.run("ExtractMC", on_line=line, workers=8)
    if not res.ok:
        raise RuntimeError("the specification violates its own properties:\n" + res.violation[-4000:])
    check.add(states=res.distinct, transitions=res.states)
    trees = [(json.loads(k), v) for k, v in edges.items()]
    random.Random(SEED).shuffle(trees)
    with Pool(8) as pool:
        groups = pool.map(replayed, [(trees[i::8], SEED + i, 25 if not THOROUGH else 3000) for i in range(8)], chunksize=1)
        check.add(requests_of_the_model_made=sum(len(t) for _, t in groups))
        groups += pool.map(recorded, [(SEED * 1000 + i, 25 if not THOROUGH else 600, i) for i in range(8)], chunksize=1)
    check.add(traces_validated_against_impl=sum(len(t) for _, t in groups), loaded_again=sum(x["lr"] == "ok" for _, t in groups for x in t))
    check.sample({k: groups[-1][1][0][k] for k in ("op", "before", "r", "part")})
    for n, i, v in judge(groups):
        x = groups[n][1][i]
        for w in v:
            check.violation(f"{'get_subtree' if x['op']['k'] == 'get' else 'generate_subtree'} {' '.join(map(str, w))}", {"request": x, "verdict": v})
    check.assumptions += ["nodes are compared by what is published of them", "names of the trees that are answered are not judged"]
