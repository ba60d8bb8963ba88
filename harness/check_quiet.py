"""C06: nothing keeps running after untick, shutdown or a terminal result.

1. TLC checks KernelMC's Quiet (with the other step properties) completely for mixed trees.
2. Walks through that state graph that cover its transitions, and random histories on larger random trees,
   are executed on the real nodes with every call recorded; QuietTrace judges the recordings.
   The outcome of the operations is not compared here (that is C02 to C05), only the property.
"""

import json
import os
import random
import tempfile

import check_kernel as CK
import kernel as K
import replay
import tlc
from pool import Pool
from common import SEED, THOROUGH
from kernel import T, L
from record import Recorder


def mixed_trees():
    out = []
    flows = ["SEQ", "MSEQ", "FB", "MFB", "PAR", "PFT", "NSW", "ESW"]
    for a in flows:
        out.append((T(a, L(), L(p1=1), p1=1), {}))
    for a in flows:
        for b in flows if THOROUGH else ["SEQ", "MFB", "PAR", "NSW"]:
            if a in ("NSW", "ESW") and b in ("NSW", "ESW"):
                continue
            out.append((T(a, L(), T(b, L(), L(), p1=1), p1=1), {"errors": False, "tickouts": K.STATES}))
    for d in K.ALL_DECO:
        for b in ("SEQ", "PAR", "MFB"):
            out.append((T(b, T(d, L(), p1=1), L(), p1=1), {"errors": False, "tickouts": K.STATES}))
        out.append((T(d, T("SEQ", L(), L()), p1=1), {"errors": False}))
        out.append((T("SEQ", L(), T(d, L(), p1=1)), {"errors": THOROUGH}))
    # shutdown, also with errors at every node
    out.append((T("SEQ", T("SDEC", L()), T("SDEC", L())), {"tickouts": ["RUNNING"]}))
    return out


class Run:
    """One history on a real tree, every call recorded."""

    def __init__(self, tr):
        self.tr = tr
        self.t = K.Tree(tr)
        self.rec = Recorder(self.t.nodes, snapshots=True)
        self.ops, self.obs = [], []

    def apply(self, op):
        pre = self.rec.states()
        self.rec.ev.clear()
        o = self.t.apply(op)
        self.ops.append(op)
        self.obs.append({"pre": pre, "ev": list(self.rec.ev)})
        return o["r"].startswith("EXC")

    def trace(self):
        return {"type": self.tr["type"], "kids": self.tr["kids"], "ops": self.obs}


def explore(args):
    chunk, seed, budget = args
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump(chunk, f)
    graphs = [replay.Graph() for _ in chunk]

    def on_line(e):
        g = graphs[e[0] - 1]
        g.edge(g.state([e[2], e[1]]), {"k": e[3], "scr": e[4], "inp": e[5], "now": e[6]}, None, g.state([e[8], e[6]]))

    res = tlc.run("KernelMC", env={"TREES": path, "EMIT": 1}, on_line=on_line, heap="2g")
    os.unlink(path)
    out = {"states": res.distinct, "transitions": sum(g.edges for g in graphs), "steps": 0, "covered": 0,
           "model": None if res.ok else res.violation, "traces": []}
    if not res.ok:
        return out
    rng = random.Random(seed)
    for tr, g in zip(chunk, graphs):
        runs = []

        def new():
            runs.append(Run(tr))
            return runs[-1]

        # the walk follows the specification; where the code differs the recording shows what it really does
        steps, cov, _, _ = replay.cover(g, 0, new, lambda r, op, obs: r.apply(op) and None, rng, max_len=60, budget=budget)
        out["steps"] += steps
        out["covered"] += cov
        out["traces"] += [(CK.describe(tr), r.trace(), r.ops) for r in runs if r.ops]
    return out


def record(args):
    seed, count, length = args
    rng = random.Random(seed)
    out = []
    for _ in range(count):
        tr = K.random_tree(rng, sorted(K.FLOW) + K.ALL_DECO, rng.choice([2, 3, 4]), ("LEAF", "LEAF", "WAIT"), max_kids=4)
        if tr["n"] > 14:
            continue
        r = Run(tr)
        err = rng.choice([0, 0, 0.03, 0.1])
        for op in K.random_history(rng, tr, length, err):
            if op["k"] == "shutdown" and rng.random() < 0.6:
                for i in range(tr["n"]):
                    if tr["type"][i] in K.SCRIPTED and rng.random() < 0.3:
                        op["scr"][i] = "err"
            r.apply(op)
        out.append((CK.describe(tr), r.trace(), r.ops))
    return out


def run(check):
    K.classes()
    ts = [K.vectors(K.flatten(t), **kw) for t, kw in mixed_trees()]
    random.Random(SEED).shuffle(ts)
    ts.sort(key=lambda t: len(t["scrs"]["tick"]) * len(t["inps"]))
    chunks = [ts[i::20] for i in range(20)][::-1]
    count, length = (150, 60) if THOROUGH else (12, 30)
    with Pool(8) as pool:
        results = pool.map(explore, [(c, SEED + i, 40000 if THOROUGH else 250) for i, c in enumerate(chunks) if c], chunksize=1)
        rec = pool.map(record, [(SEED * 1000 + i, count, length) for i in range(8)], chunksize=1)
    for r in results:
        if r["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + r["model"][-4000:])
        check.add(states=r["states"], transitions=r["transitions"], transitions_replayed=r["covered"])
    traces = [t for r in results for t in r["traces"]] + [t for ts in rec for t in ts]
    for i, v in CK.validate("QuietTrace", [t[1] for t in traces], check):
        desc, tr, ops = traces[i]
        check.violation(f"{desc}: operation {v[1]} ({ops[v[1] - 1]['k']}): {v[2]}",
                        {"tree": desc, "ops": ops[: v[1]], "events": tr["ops"][v[1] - 1]})
    check.add(traces_validated_against_impl=len(traces), recorded_operations=sum(len(t[2]) for t in traces),
              recorded_events=sum(len(o["ev"]) for t in traces for o in t[1]["ops"]))
    check.cov["trees"] = len(ts)
    check.sample({"tree": traces[0][0], "ops": [o["k"] for o in traces[0][2]][:20]})
    check.assumptions += ["leaves are scripted; a leaf's untick answers IDLE or PAUSED",
                          "an untick that reports an error is not judged"]
