"""C02, C03, C04, C05, C23: exact agreement of the shipped flow-control nodes and decorators with BTKernel.

1. TLC explores KernelMC for the property's trees completely, checks the model's properties on every
   transition and prints it; covering walks replay all of them on the real nodes.
2. Random histories on larger random trees of the property's node types are executed on the real nodes and
   the recorded observations are checked by TLC against the same Step operator (KernelTrace).
"""

import itertools
import json
import os
import random
import tempfile
import time

import kernel as K
import replay
import tlc
from pool import Pool
from common import SEED, THOROUGH
from kernel import T, L


def combos(ty, n, p1s=(0,), p2s=(0,), leaf=lambda: L()):
    return [T(ty, *[leaf() for _ in range(n)], p1=a, p2=b) for a in p1s for b in p2s]


def trees(prop):
    """(tree, keyword arguments for vectors) for exhaustive exploration."""
    out = []

    def add(t, **kw):
        out.append((t, kw))

    if prop == "C02":
        for ty in ("SEQ", "FB", "MSEQ", "MFB"):
            add(T(ty))
            add(T(ty, L()))
            add(T(ty, L(), L(p1=1)))
            add(T(ty, L(), L(), L()), errors=False)
            add(T(ty, T("SDEC", L()), L()))
            for inner in ("SEQ", "FB", "MSEQ", "MFB"):
                add(T(ty, T(inner, L(), L()), L()), errors=False)
                add(T(ty, L(), T(inner, L(), L())), errors=False)
            if THOROUGH:
                add(T(ty, L(), L(), L()))
                add(T(ty, L(), L(), L(), L()), errors=False)
    elif prop == "C03":
        for n in (1, 2, 3):
            for p1 in range(1, n + 2):
                add(T("PAR", *[L() for _ in range(n)], p1=p1), errors=n < 3)
                for p2 in range(0, n):
                    add(T("PFT", *[L() for _ in range(n)], p1=p1, p2=p2), errors=n < 3)
        add(T("PAR", p1=1))
        add(T("PFT", p1=1))
        for ty in ("PAR", "PFT"):
            add(T(ty, T("SDEC", L()), L(p1=1), p1=1), errors=True)
            add(T(ty, T("PAR", L(), L(), p1=2), L(), p1=1, p2=0), errors=False)
            add(T(ty, T("PFT", L(), L(), p1=1, p2=0), L(), p1=2, p2=1), errors=False)
            add(T(ty, L(), L(), L(), L(), p1=2, p2=1), errors=False,
                tickouts=K.STATES if THOROUGH else ["RUNNING", "SUCCEEDED"])
    elif prop == "C04":
        for ty in ("NSW", "ESW"):
            add(T(ty))
            add(T(ty, L()))
            add(T(ty, L(), L(p1=1)))
            add(T(ty, L(), L(), L()), errors=THOROUGH)
            add(T(ty, T("SDEC", L()), L()))
            for inner in ("NSW", "ESW") if THOROUGH else ():
                add(T(ty, T(inner, L(), L()), L()), errors=False, tickouts=["RUNNING", "SUCCEEDED"])
    elif prop == "C05":
        params = {"IGNR": (0, 1), "RETRY": (0, 1, 2, 3), "REPEAT": (1, 2, 3), "RNAR": (1, 2, 3)}
        decos = [d for d in K.ALL_DECO if d not in ("THR", "THRS")]
        for d in decos:
            for p in params.get(d, (0,)):
                add(T(d, p1=p))
                add(T(d, L(), p1=p))
                add(T(d, L(p1=1), p1=p))
        add(T("OPT", L(p2=1)))
        add(T("OPT", T("SDEC", L())))
        for a, b in itertools.product(decos, decos):
            if a in K.HASINPUT and b in K.HASINPUT:
                continue  # left to the recorded traces: the two inputs multiply the state space
            pa, pb = params.get(a, (0,))[-1], params.get(b, (0,))[0]
            add(T(a, T(b, L(), p1=pb), p1=pa), errors=THOROUGH)
    elif prop == "C23":
        for p in (0, 1, 3):
            add(T("WAIT", p1=p))
            for d in ("THR", "THRS"):
                add(T(d, p1=p))
                add(T(d, L(), p1=p), errors=THOROUGH or p == 1)
            for w in (0, 2):
                add(T("THR", T("WAIT", p1=w), p1=p))
                add(T("THRS", T("WAIT", p1=w), p1=p))
        add(T("THR", T("THRS", L(), p1=2), p1=1), errors=False)
        add(T("THRS", T("THR", L(), p1=2), p1=1), errors=False)
    return out


RANDOM = {
    "C02": (["SEQ", "FB", "MSEQ", "MFB"], ("LEAF",)),
    "C03": (["PAR", "PFT"], ("LEAF",)),
    "C04": (["NSW", "ESW"], ("LEAF",)),
    "C05": ([d for d in K.ALL_DECO if d not in ("THR", "THRS")], ("LEAF",)),
    "C23": (["THR", "THRS"], ("LEAF", "WAIT")),
}


def expected(tr, e):
    """Observation of an emitted transition."""
    _, _, _, k, scr, inp, now, r, dst, log = e
    return {"r": r, "st": [x[0] for x in dst], "out": [x[6] for x in dst], "log": log}


def differs(want, got):
    for key in ("r", "st", "out"):
        if want[key] != got[key]:
            return f"{key}: specification {want[key]}, code {got[key]}"
    if K.canon(want["log"]) != K.canon(got["log"]):
        return f"calls: specification {want['log']}, code {got['log']}"
    return None


def describe(tr):
    def d(i):
        p = f"{tr['p1'][i]},{tr['p2'][i]}" if tr["p1"][i] or tr["p2"][i] else ""
        return f"{tr['type'][i]}{'<' + p + '>' if p else ''}" + \
            (f"({', '.join(d(k - 1) for k in tr['kids'][i])})" if tr["kids"][i] else "")
    return d(0)


def explore(args):
    """Worker: model check a chunk of trees and replay every transition."""
    prop, chunk, seed, steps_per_tree = args
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump(chunk, f)
    graphs = [replay.Graph() for _ in chunk]

    def on_line(e):
        g = graphs[e[0] - 1]
        src = g.state([e[2], e[1]])
        dst = g.state([e[8], e[6]])
        g.edge(src, {"k": e[3], "scr": e[4], "inp": e[5], "now": e[6]}, expected(None, e), dst)

    res = tlc.run("KernelMC", env={"TREES": path, "EMIT": 1}, on_line=on_line, heap="2g")
    os.unlink(path)
    out = {"states": res.distinct, "transitions": 0, "steps": 0, "covered": 0, "walks": 0, "fail": [],
           "model": None if res.ok else res.violation, "sample": None}
    if not res.ok:
        return out
    rng = random.Random(seed)
    for tr, g in zip(chunk, graphs):
        out["transitions"] += g.edges
        init = 0  # the initial state is the source of the first transition printed
        steps, cov, walks, fail = replay.cover(
            g, init, lambda: K.Tree(tr), lambda obj, op, obs: differs(obs, obj.apply(op)), rng, budget=steps_per_tree)
        out["steps"] += steps
        out["covered"] += cov
        out["walks"] += walks
        if fail:
            out["fail"].append((describe(tr), {k: tr[k] for k in ("n", "type", "kids", "p1", "p2")}, fail[0], fail[1]))
    return out


def record(args):
    """Worker: random histories on the real nodes."""
    prop, seed, count, length = args
    rng = random.Random(seed)
    types, leaves = RANDOM[prop]
    traces = []
    for i in range(count):
        tr = K.random_tree(rng, types, rng.choice([2, 3, 3, 4]) if prop not in ("C05", "C23") else rng.choice([2, 3, 4]),
                           leaves, max_kids=5 if prop in ("C02", "C03", "C04") else 3)
        if tr["n"] > 14:
            continue
        ops = K.random_history(rng, tr, length, errors=rng.choice([0, 0, 0.02, 0.1]))
        t = K.Tree(tr)
        obs = []
        for op in ops:
            o = t.apply(op)
            del o["upd"]
            obs.append(o)
        traces.append({"tree": tr, "ops": ops, "obs": obs})
    return traces


def validate(module, traces, check, key="traces"):
    """TLC judges recorded traces; returns list of (index, verdict) for rejected ones."""
    bad = []
    chunks = [traces[i::8] for i in range(8)]

    def job(n, chunk):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        verdicts = []
        res = tlc.run(module, env={"TRACES": path}, on_line=verdicts.append, heap="2g")
        os.unlink(path)
        if not res.ok or len(verdicts) != len(chunk):
            raise RuntimeError(f"{module} failed ({len(verdicts)} of {len(chunk)} verdicts):\n{res.out[-3000:]}")
        return [(v[0] - 1) * 8 + n for v in verdicts if v[1] != "ok"], {(v[0] - 1) * 8 + n: v[1:] for v in verdicts}

    allv = {}
    for idx, v in tlc.parallel([lambda n=n, c=c: job(n, c) for n, c in enumerate(chunks) if c]):
        bad += idx
        allv.update(v)
    return [(i, allv[i]) for i in sorted(bad)]


def absorb(check, results):
    for r in results:
        if r["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + r["model"][-4000:])
        check.add(states=r["states"], transitions=r["transitions"], traces_validated_against_impl=r["walks"],
                  steps_replayed=r["steps"], transitions_replayed=r["covered"])
        for desc, tr, ops, why in r["fail"]:
            check.violation(f"{desc}: step {len(ops)} ({ops[-1]['k']}): {why}", {"tree": tr, "ops": ops, "why": why})


def run(check):
    prop = check.prop
    ts = [K.vectors(K.flatten(t), **kw) for t, kw in trees(prop)]
    rng = random.Random(SEED)
    rng.shuffle(ts)
    ts.sort(key=lambda t: len(t["scrs"]["tick"]) * len(t["inps"]))
    chunks = [ts[i::20] for i in range(20)][::-1]
    budget = 400000 if THOROUGH else 6000
    count, length = (400, 80) if THOROUGH else (25, 40)
    with Pool(8) as pool:
        ex = pool.map_async(explore, [(prop, c, SEED + i, budget) for i, c in enumerate(chunks) if c], chunksize=1)
        results = ex.get()
        rec = pool.map(record, [(prop, SEED * 1000 + i, count, length) for i in range(8)], chunksize=1)
    absorb(check, results)
    check.cov["trees"] = len(ts)
    check.cov["exhaustive"] = check.cov["transitions"] == check.cov["transitions_replayed"]
    traces = [t for r in rec for t in r]
    for i, v in validate("KernelTrace", traces, check):
        t = traces[i]
        check.violation(f"{describe(t['tree'])}: recorded trace rejected at step {v[1]}: {v[2]}",
                        {"tree": t["tree"], "ops": t["ops"][: v[1]], "obs": t["obs"][: v[1]], "why": v})
    check.add(traces_validated_against_impl=len(traces), recorded_traces=len(traces),
              recorded_steps=sum(len(t["ops"]) for t in traces))
    for t in traces[:2]:
        check.sample({"tree": describe(t["tree"]), "ops": [o["k"] for o in t["ops"]][:12],
                      "replies": [o["r"] for o in t["obs"]][:12]})
    check.assumptions += ["leaves are scripted; a leaf's untick answers IDLE or PAUSED",
                          "the order in which siblings are unticked, reset or shut down is not judged"]
