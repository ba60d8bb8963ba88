"""C07: after a reset, or a shutdown and a setup, a tree behaves as right after its first setup.

1. TLC checks ResetProp and SetupProp of KernelMC in every reachable state of the trees below.
2. Every one of these states is reached on the real nodes, renewed by reset (where the root permits it) and by
   shutdown and setup, and then has to behave for sampled suffixes like a fresh tree; the same for random
   histories of larger random trees.  ResetTrace judges the pairs.
"""

import json
import os
import random
import tempfile
from collections import deque

import check_kernel as CK
import kernel as K
import replay
import tlc
from pool import Pool
from common import SEED, THOROUGH
from kernel import T, L

# nodes whose purpose is to remember across resets
KEEPS = {"RNAR", "THR"}


def reset_trees():
    params = {"IGNR": (0, 1), "RETRY": (0, 2), "REPEAT": (1, 2), "RNAR": (1, 2), "THR": (2,), "THRS": (2,)}
    out = []
    for d in K.ALL_DECO:
        for p in params.get(d, (0,)):
            out.append((T(d, L(), p1=p), {"errors": False}))
            if THOROUGH:
                out.append((T(d, L(p1=1), p1=p), {"errors": True}))
    for f in sorted(K.FLOW):
        out.append((T(f, L(), L(p1=1), p1=1), {"errors": False}))
        out.append((T(f, L(), L(), L(), p1=2), {"errors": False}))
    for w in (0, 2):
        out.append((T("WAIT", p1=w), {}))
    for d in ("RETRY", "REPEAT", "RNAR", "ITER", "MSEQ", "MFB", "THRS", "PAR"):
        for e in ("RETRY", "REPEAT", "MSEQ", "MFB", "PAR", "NSW") + (("ITER", "WATCH", "RNAR") if THOROUGH else ()):
            kids = [L(), L()] if e in K.FLOW else [L()]
            more = [L()] if d in K.FLOW else []
            out.append((T(d, T(e, *kids, p1=1), *more, p1=1), {"errors": False}))
    return out


def extras(t):
    """Whether each node's outputs have a value and its inputs all count as updated."""
    setv, upd = [], []
    for n in t.nodes:
        setv.append(any(c.has_value() for c in n.node_config.outputs.values()))
        upd.append(all(c.is_updated() for c in n.node_config.inputs.values()))
    return {"set": setv, "upd": upd}


def blank(tr, k, now):
    return {"k": k, "scr": [""] * tr["n"], "inp": [[]] * tr["n"], "now": now}


def clean(o):
    return {k: o[k] for k in ("r", "st", "out", "log")}


def pair(tr, hist, how, now, suffix):
    """One trace: hist, renewal, suffix on one tree; setup and suffix on a fresh one."""
    a = K.Tree(tr)
    for op in hist:
        a.apply(op)
    if how == "reset":
        after = a.apply(blank(tr, "reset", now))
    else:
        a.apply(blank(tr, "shutdown", now))
        after = a.apply(blank(tr, "setup", now))
    after.update(extras(a))
    b = K.Tree(tr)
    fresh = b.apply(blank(tr, "setup", now))
    return {"how": how, "after": after, "fresh": fresh, "a": [clean(a.apply(op)) for op in suffix],
            "b": [clean(b.apply(op)) for op in suffix]}


def suffix_of(rng, tr, now, n, renew=False):
    ops = []
    for j in range(n):
        op = K.random_op(rng, tr, rng.choices(["tick", "untick", "reset"], weights=[8, 2, 1 if renew else 0])[0] if j else "tick", now)
        if j == 0:
            op["inp"] = K.all_inputs(rng, tr)
        ops.append(op)
        now += rng.choice([0, 1, 2])
    return ops


def ways(tr, last):
    w = ["shutdown"]
    if last in ("IDLE", "RUNNING", "SUCCEEDED", "FAILED", "PAUSED") and not set(tr["type"]) & KEEPS:
        w.append("reset")
    return w


def explore(args):
    chunk, seed, nsuf, most = args
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump(chunk, f)
    graphs = [replay.Graph() for _ in chunk]
    roots = [{} for _ in chunk]

    def on_line(e):
        g = graphs[e[0] - 1]
        src, dst = g.state([e[2], e[1]]), g.state([e[8], e[6]])
        roots[e[0] - 1][src] = (e[2][0][0], e[1])
        roots[e[0] - 1][dst] = (e[8][0][0], e[6])
        g.edge(src, {"k": e[3], "scr": e[4], "inp": e[5], "now": e[6]}, None, dst)

    res = tlc.run("KernelMC", env={"TREES": path, "EMIT": 1}, on_line=on_line, heap="2g")
    os.unlink(path)
    out = {"states": res.distinct, "transitions": sum(g.edges for g in graphs), "reached": 0,
           "model": None if res.ok else res.violation, "traces": []}
    if not res.ok:
        return out
    rng = random.Random(seed)
    for tr, g, root in zip(chunk, graphs, roots):
        seen = {0: []}
        q = deque([0])
        while q:
            u = q.popleft()
            edges = list(g.out[u])
            rng.shuffle(edges)
            for op, _, d in edges:
                if d not in seen:
                    seen[d] = seen[u] + [op]
                    q.append(d)
        states = [s for s in seen if s in root and seen[s]]
        if len(states) > most:
            states = rng.sample(states, most)
        for s in states:
            out["reached"] += 1
            st, now = root[s]
            for how in ways(tr, st):
                for _ in range(nsuf):
                    suf = suffix_of(rng, tr, now, rng.choice([3, 6, 9]))
                    out["traces"].append((CK.describe(tr), pair(tr, seen[s], how, now, suf), seen[s], suf))
    return out


def record(args):
    seed, count, length = args
    rng = random.Random(seed)
    out = []
    deco = [d for d in K.ALL_DECO if d not in KEEPS]
    for n in range(count):
        how = rng.choice(["reset", "reset", "shutdown"])
        types = sorted(K.FLOW) + (deco if how == "reset" else K.ALL_DECO)
        tr = K.random_tree(rng, types, rng.choice([2, 3, 4]), ("LEAF", "LEAF", "WAIT"), max_kids=3)
        if tr["n"] > 12:
            continue
        hist = [o for o in K.random_history(rng, tr, rng.randint(2, length))]
        probe = K.Tree(tr)
        r = [probe.apply(o) for o in hist][-1]
        if how not in ways(tr, r["st"][0]):
            continue
        now = hist[-1]["now"]
        suf = suffix_of(rng, tr, now, rng.choice([4, 12, 20]))
        out.append((CK.describe(tr), pair(tr, hist, how, now, suf), hist, suf))
    return out


def run(check):
    K.classes()
    ts = [K.vectors(K.flatten(t), **kw) for t, kw in reset_trees()]
    random.Random(SEED).shuffle(ts)
    ts.sort(key=lambda t: len(t["scrs"]["tick"]) * len(t["inps"]))
    chunks = [ts[i::20] for i in range(20)][::-1]
    with Pool(8) as pool:
        results = pool.map(explore, [(c, SEED + i, *((6, 400) if THOROUGH else (1, 18))) for i, c in enumerate(chunks)], chunksize=1)
        rec = pool.map(record, [(SEED * 1000 + i, *((400, 40) if THOROUGH else (40, 14))) for i in range(8)], chunksize=1)
    for r in results:
        if r["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + r["model"][-4000:])
        check.add(states=r["states"], transitions=r["transitions"], states_renewed=r["reached"])
    traces = [t for r in results for t in r["traces"]] + [t for ts in rec for t in ts]
    # a setup that fails on the fresh tree leaves nothing to compare with
    traces = [t for t in traces if t[1]["fresh"]["r"] == "IDLE"]
    for i, v in CK.validate("ResetTrace", [t[1] for t in traces], check):
        desc, tr, hist, suf = traces[i]
        check.violation(f"{desc}: {tr['how']} after {[o['k'] for o in hist]}: suffix step {v[1]}: {v[2]} {v[3:]}",
                        {"tree": desc, "history": hist, "how": tr["how"], "suffix": suf, "why": v})
    check.add(traces_validated_against_impl=len(traces), suffix_operations=sum(len(t[3]) for t in traces))
    check.cov["trees"] = len(ts)
    check.sample({"tree": traces[0][0], "how": traces[0][1]["how"], "history": [o["k"] for o in traces[0][2]], "suffix": [o["k"] for o in traces[0][3]]})
    check.assumptions += ["leaves are scripted", "the no-auto-reset repeat and the throttle keep their memory across resets by design"]
