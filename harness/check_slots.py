"""C09: the life of data slots.

1. SlotMC: every state of slots of the sample types under every operation with values around their limits; each
   transition is replayed on the real slots.
2. Random types (nested up to three levels) under random operation sequences, judged by SlotTrace.
"""

import json
import os
import random
import tempfile

import check_kernel as CK
import replay
import slots as S
import tlc
from pool import Pool
from common import SEED, THOROUGH


def flag_variants(t):
    yield t
    if t["k"] not in ("gtype", "rtype") and t["sta"]:
        yield dict(t, isSta=False)


def case(t, rng, n):
    vals = S.values(t, rng, n)
    k = S.resolved(t)["k"]
    c = S.build(t)
    r = S.readable(t)
    return {"type": S.rec(t), "vals": [S.tag(v, k) for v in vals], "init": S.state(c, k),
            "reads": [r and S.plain(v) for v in vals]}, vals, t


def model(cases):
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump([c for c, _, _ in cases], f)
    graphs = [replay.Graph() for _ in cases]

    def line(v):
        c, st, op, j, ok, st2 = v
        g = graphs[c - 1]
        if op == "read" and not cases[c - 1][0]["reads"][j - 1]:
            return
        g.edge(g.state(st), (op, j), {"ok": ok, "st": st2}, g.state(st2))

    res = tlc.run("SlotMC", env={"CASES": path}, on_line=line, heap="2g")
    os.unlink(path)
    return graphs, res


def agree(a, b):
    """SameSt of BTSlot."""
    if a["has"] != b["has"] or a["upd"] != b["upd"]:
        return False
    return not a["has"] or a["val"] == b["val"] or (a["val"]["t"] == b["val"]["t"] and veq(a["val"], b["val"]))


def veq(a, b):
    num = ("bool", "int", "float")
    if a["t"] in num and b["t"] in num:
        return a["n"] == b["n"]
    return (all(a[k] == b[k] for k in ("t", "s", "n", "lo", "hi", "mx", "strict", "mt")) and a["keys"] == b["keys"]
            and len(a["items"]) == len(b["items"]) and all(veq(x, y) for x, y in zip(a["items"], b["items"])))


def work(args):
    n, seed, count = args
    rng = random.Random(seed)
    cases = [case(t, random.Random(f"{SEED}{t}"), n) for t in count]
    graphs, res = model(cases)
    out = {"states": res.distinct, "transitions": res.states, "model": None if res.ok else res.violation, "steps": 0, "covered": 0,
           "walks": 0, "fail": []}
    if not res.ok:
        return out
    for g, (c, vals, t) in zip(graphs, cases):
        k = S.resolved(t)["k"]

        def step(obj, op, obs):
            r = S.do(obj, op[0], vals[op[1] - 1] if op[1] else None)
            st = S.state(obj, k)
            if r != ("ok" if obs["ok"] else "err"):
                return f"{op[0]} {vals[op[1]-1]!r:.80}: expected {'ok' if obs['ok'] else 'err'}, got {r}"
            if not agree(st, obs["st"]):
                return f"{op[0]}: slot is {brief(st)}, expected {brief(obs['st'])}"
            return None

        s, cov, walks, fail = replay.cover(g, g.state(c["init"]), lambda: S.build(t), step, rng, max_len=200)
        out["steps"] += s
        out["covered"] += cov
        out["walks"] += walks
        if fail:
            ops, why = fail
            out["fail"].append((describe(t), {"type": describe(t)}, [{"k": o, "val": repr(vals[j - 1]) if j else None} for o, j in ops], why))
    return out


def brief(st):
    return f"{'has ' + str(st['val']['t']) + ' ' + str(st['val']['s'] or st['val']['n']) if st['has'] else 'empty'}{' updated' if st['upd'] else ''}"


def describe(t):
    d = {k: v for k, v in t.items() if v not in (None, "", 0, False) and k not in ("elem", "of", "k", "dyn", "sta")}
    e = f" of {describe(t['elem'])}" if t["elem"] else ""
    o = f" to {S.pub(t['of'])['s'] or S.pub(t['of'])['mt']}" if t["of"] else ""
    return f"{t['k']}{o}{e} {d}"


def record(args):
    seed, n = args
    rng = random.Random(seed)
    out = []
    for _ in range(n):
        t = S.random_type(rng) if rng.random() < 0.8 else rng.choice(S.all_types())
        k = S.resolved(t)["k"]
        vals = S.values(t, rng, 8)
        c = S.build(t)
        tr = {"type": S.rec(t), "init": S.state(c, k), "steps": [], "what": describe(t)}
        if t["k"] not in ("ref", "reflist", "refdict") and rng.random() < 0.3:
            v = rng.choice(vals)
            try:
                c = S.build(t, v)
                r = "ok"
            except ValueError:
                r = "err"
            except Exception as e:
                r = "raises " + type(e).__name__
            tr["steps"].append({"op": "new", "val": S.tag(v, k), "py": repr(v)[:200], "r": r, "st": S.state(c, k)})
        rd = S.readable(t)
        for _ in range(rng.randrange(4, 14)):
            op = rng.choice(["set"] * 5 + ["read"] * 2 + ["drop", "flag", "unflag", "unflag"])
            v = rng.choice(vals) if op in ("set", "read") else None
            if op == "read" and not (rd and S.plain(v)):
                op = "set"
            r = S.do(c, op, v)
            e = {"op": op, "r": r, "st": S.state(c, k)}
            if v is not None:
                e["val"] = S.tag(v, k)
                e["py"] = repr(v)[:200]
            tr["steps"].append(e)
        out.append(tr)
    return out


def run(check):
    ts = [v for t in S.all_types() for v in flag_variants(t)]
    rng = random.Random(SEED)
    rng.shuffle(ts)
    chunks = [ts[i::16] for i in range(16)]
    with Pool(8) as pool:
        results = pool.map_async(work, [(12 if THOROUGH else 6, SEED * 100 + i, c) for i, c in enumerate(chunks)], 1).get()
        CK.absorb(check, results)
        traces = [t for ts in pool.map(record, [(SEED * 1000 + i, 400 if THOROUGH else 60) for i in range(16)]) for t in ts]
    check.add(traces_validated_against_impl=len(traces), recorded_steps=sum(len(t["steps"]) for t in traces))
    check.sample(traces[0])
    for i, v in CK.validate("SlotTrace", traces, check):
        tr = traces[i]
        e = tr["steps"][v[1] - 1]
        check.violation(f"slot {tr['what']}: {e['op']} {e.get('py', '')} {v[2]} (answer {e['r']})", {"trace": tr, "verdict": v})
    check.assumptions += ["numbers are compared by rank", "not-a-number values are not tried", "the values slots are created with are not judged"]
