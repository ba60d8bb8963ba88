"""What the checks of action, service and topic nodes share: a state machine of the specification is explored by TLC, its transitions are
replayed on a real node, and random histories of real nodes are judged by the same state machine."""

import json
import os
import random
import tempfile
import time

import replay
import tlc
from pool import Pool
from common import SEED, THOROUGH


def differ(exp, obs):
    free = exp.get("free")
    for k, v in exp.items():
        if k == "free":
            continue
        if k == "calls" and free:
            obs = dict(obs, calls=[c for c in obs["calls"] if c["c"] != "publish"])
        if not same(obs[k], v):
            return f"{k}: {obs[k]}, should be {v}"
    return None


def same(a, b):
    return norm(a) == norm(b)


def norm(x):
    return sorted(json.dumps(c, sort_keys=True) for c in x) if isinstance(x, list) else x


def explore(module, cfg=None, workers=4, fresh=lambda s: True):
    """The graph of a model; its init is a list of (state number, state)."""
    g = replay.Graph()
    new = {}

    def on(v):
        a, e, o, b = v
        i = g.state(a)
        if a["st"] == "UNINITIALIZED" and i not in new and e["k"] == "setup" and fresh(a):
            new[i] = a
        g.edge(i, e, o, g.state(b))
    res = tlc.run(module, cfg=cfg, workers=workers, heap="6g", on_line=on)
    if not res.ok:
        raise RuntimeError(f"{module}: the specification violates its own properties:\n" + (res.violation or res.out)[-3000:])
    g.init = sorted(new.items())
    return g, res


SHARED = {}


def replayed(args):
    name, share, of, seed, limit = args
    g, driver, how = SHARED[name]
    rng = random.Random(seed)
    out = []
    for n, (i, first) in enumerate(g.init):
        end = time.time() + max(0.5, limit / len(g.init))
        compare = how(first)

        def step(d, e, o):
            return compare(o, d.do(e))
        out.append(replay.cover(g, i, lambda: driver(rng, first), step, rng, clock=lambda: time.time() > end, mine=lambda s, e: (s * 31 + e) % of == share))
    return out


def recorded(args):
    name, seed, n, length = args
    make, choose, config = SHARED[name]
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        c = config(rng)
        d = make(c, rng)
        es = []
        for _ in range(rng.randint(5, length)):
            e = choose(d, rng)
            if e is None:
                break
            es.append({"e": e, "o": d.do(e)})
        out.append({"cfg": c, "events": es})
    return out


def judge(module, traces, check, what):
    def job(chunk):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        res = tlc.run(module, env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or res.distinct != len(chunk) + 1:
            raise RuntimeError(f"{module} failed:\n{res.out[-3000:]}")
        return [(chunk[v[0] - 1], v[1]) for v in vs if v[1]]
    size = max(1, -(-len(traces) // 8))
    for r in tlc.parallel([lambda i=i: job(traces[i:i + size]) for i in range(0, len(traces), size)]):
        for t, (at, key, obs, want) in r:
            e = t["events"][at - 1]["e"]
            check.violation(f"{what}: {key} after {short(e)}: {obs}, should be {want}", {"trace": t, "at": at, "verdict": [key, obs, want]})


def short(e):
    return " ".join(str(e[k]) for k in e if k != "k") and f"{e['k']}({', '.join(str(e[k]) for k in e if k != 'k')})" or e["k"]


def decide(check, name, what, graph, driver, make, choose, config, module, limit, runs, length=60, differ=lambda s: differ):
    SHARED["g" + name] = (graph, driver, differ)
    SHARED["t" + name] = (make, choose, config)
    with Pool(8) as pool:
        rs = pool.map(replayed, [("g" + name, i, 8, SEED * 100 + i, limit) for i in range(8)])
        traces = [t for o in pool.map(recorded, [("t" + name, SEED * 977 + i, runs, length) for i in range(32)]) for t in o]
    for steps, covered, walks, bad in (x for r in rs for x in r):
        check.add(replayed_steps=steps, replayed_transitions=covered, traces_validated_against_impl=walks)
        if bad:
            ops, why = bad
            check.violation(f"{what}: after {', '.join(short(o) for o in ops[-12:])}: {why}", {"history": ops, "difference": why})
    check.add(traces_validated_against_impl=len(traces), recorded_steps=sum(len(t["events"]) for t in traces))
    check.sample({"node": what, "events": [x["e"] for x in traces[0]["events"]][:15]})
    judge(module, traces, check, what)
