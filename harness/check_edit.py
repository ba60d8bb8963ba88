"""C15, C16, C17: editing.

1. EditMC: every tree that editing makes of the configurations of a case, under every request; its transitions are
   replayed on the real edit manager.
2. Random histories over the nodes of the shipped trees, including damaged requests, recorded and judged by EditTrace.
Every disagreement found in 1 is judged by EditTrace as well, which says which property it violates.
"""

import copy
import glob
import json
import os
import random
import tempfile
import time

import edit as E
import replay
import tlc
from pool import Pool
from common import SEED, THOROUGH

REPO = os.environ.get("VERIF_REPO", "/repo")
KIND = {"C15": ("form",), "C16": ("raise", "atomic"), "C17": ("effect",)}
FLOW, DECO, PAIR, INT0, INT1, STR0, STR1, FLT0, FLT1, MIX = range(1, 11)


def node(id, cfg, kids=(), name="m"):
    return {"id": id, "cfg": cfg, "name": name, "kids": list(kids)}


def msg(nodes, wires=(), pin=(), pout=(), name="loaded", path="/here"):
    return {"nodes": nodes, "wires": [list(w) for w in wires], "name": name, "path": path, "pin": [list(x) for x in pin],
            "pout": [list(x) for x in pout]}


def cases(pool):
    c = dict(table=pool.table, max=3, ops=[], add=[], morph=[], opts=[], names=["a"], outs=[], ins=[], far=False, trees=[])
    alter = {k: [[x, v] for x, v in pool.table[k - 1]["opts"]] for k in (INT0, INT1, STR0, FLT0)}
    kind = {k: [x for x in alter[k] if x[0] == "kind"] for k in alter}
    n = {k: [x for x in alter[k] if x[0] == "n"] for k in alter}
    bogus = [["nothing", n[INT0][0][1]]]
    trees = [
        msg([node(1, FLOW, [2, 3]), node(2, INT0), node(3, INT1)], [[2, "o", 3, "a"]], pout=[[3, "o"]]),
        msg([node(1, FLOW, [2]), node(2, DECO, [3]), node(3, STR0)], name="other"),
        msg([node(1, FLOW, [2]), node(2, FLOW, [1])]), msg([node(1, FLOW, [2, 2]), node(2, INT0)]),
        msg([node(1, FLOW, [3]), node(2, FLOW, [3]), node(3, INT0)]), msg([node(1, FLOW, [2])]), msg([]),
        msg([node(1, FLOW), node(1, FLOW)]), msg([node(1, DECO, [2, 3]), node(2, INT0), node(3, INT0)]),
        msg([node(1, FLOW, [2, 3]), node(2, INT0), node(3, STR0)], [[2, "o", 3, "a"]]),
        msg([node(1, FLOW, [2, 3]), node(2, INT0), node(3, INT0)], [[2, "x", 3, "a"]]),
        msg([node(1, FLOW, [2, 3]), node(2, INT0), node(3, INT0)], [[2, "o", 98, "a"]]),
        msg([node(1, FLOW, [2]), node(2, 0)]),
    ]
    yield "place", dict(c, ops=["add", "remove", "move", "replace"], add=[FLOW, DECO, INT0], far=True)
    yield "adopt", dict(c, ops=["add", "adopt", "remove", "move", "clear"], add=[FLOW, PAIR, 0], max=3)
    yield "limits", dict(c, ops=["add", "remove", "replace", "morph"], add=[FLOW, DECO, PAIR], morph=[FLOW, DECO, PAIR, INT0], max=3)
    yield "wires", dict(c, ops=["add", "remove", "wire", "wire2", "clear"], add=[INT0, STR0], max=2, ins=["a", "kind"], outs=["o", "x"])
    yield "kinds", dict(c, ops=["add", "wire", "morph", "setopts", "remove"], add=[INT0, MIX], max=2, morph=[STR0, MIX, 0],
                        opts=[kind[INT0], n[INT0], n[INT1], kind[STR0], kind[STR0] + n[INT1], [], bogus], ins=["a"], outs=["o", "q"])
    yield "swap", dict(c, ops=["add", "wire", "replace", "move", "remove"], add=[MIX, STR0], max=2 if not THOROUGH else 3, ins=["a"], outs=["o", "q"])
    yield "load", dict(c, ops=["load", "remove", "clear", "rename", "reload", "morph"], max=3, trees=trees, morph=[INT1, STR0], names=["a", "b"])
    if THOROUGH:
        yield "place4", dict(c, ops=["add", "remove", "move", "replace"], add=[FLOW, PAIR, INT0], max=4)


def tup(t):
    """A tree of the specification as read from TLC: ids are keys of an object, or positions when they are 1..n."""
    ns = t["nodes"]
    ns = {i + 1: x for i, x in enumerate(ns)} if isinstance(ns, list) else {int(i): x for i, x in ns.items()}
    return {"nodes": {i: (x["cfg"], x["name"], tuple(x["kids"])) for i, x in ns.items()},
            "wires": sorted(map(tuple, t["wires"])), "name": t["name"], "path": t["path"],
            "pin": sorted(map(tuple, t["pin"])), "pout": sorted(map(tuple, t["pout"]))}


def seen(o):
    return {"nodes": {x["id"]: (x["cfg"], x["name"], tuple(x["kids"])) for x in o["nodes"]},
            "wires": sorted(map(tuple, o["wires"])), "name": o["name"], "path": o["path"],
            "pin": sorted(map(tuple, o["pin"])), "pout": sorted(map(tuple, o["pout"]))}


def linked(o):
    """Do the links agree with what is published?"""
    up = {k: x["id"] for x in o["nodes"] for k in x["kids"]}
    want = sorted(((x["id"], up.get(x["id"], 0), tuple(x["kids"])) for x in o["nodes"]))
    roots = [x["id"] for x in o["nodes"] if x["id"] not in up]
    return want == [(l["id"], l["parent"], tuple(l["kids"])) for l in o["links"]] and \
        (o["root"] == 0 or o["root"] in roots) and (len(roots) != 1 or o["root"] == roots[0])


def work(args):
    name, seed, share, budget = args
    pool = E.plain_pool()
    case = dict(cases(pool))[name]
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump(case, f)
    g = replay.Graph()

    def line(v):
        a, op, must, b = v
        b = tup(b)
        g.edge(g.state(tup(a)), op, (must, b), g.state(b))

    res = tlc.run("EditMC", env={"CASE": path}, on_line=line, heap="3g")
    os.unlink(path)
    out = {"case": name, "states": res.distinct, "transitions": g.edges, "model": None if res.ok else res.violation, "steps": 0, "covered": 0,
           "walks": 0, "bad": []}
    if not res.ok:
        return out
    n, k = share
    if n > 1:
        for o in g.out:    # each process covers its share of the edges; the others remain usable as ways
            o.sort(key=lambda e: json.dumps(e[0], sort_keys=True))
    hist = []

    def new():
        hist.clear()
        e = E.Editor(pool)
        e.m.publish_structure()
        hist.append(e.look())
        return e

    def step(e, op, exp):
        r = e.do(op)
        o = e.look()
        must, post = exp
        good = r == must and seen(o) == post and linked(o)
        if not good:
            return json.dumps({"init": hist[-1], "steps": [{"op": op, "r": r, "obs": o}]})
        hist.append(o)
        if len(hist) > 2:
            del hist[:-1]
        return None

    init = g.state(tup({"nodes": [], "wires": [], "name": "UNKNOWN TREE", "path": "", "pin": [], "pout": []}))
    rng = random.Random(seed)
    left = budget
    while left > 0:
        s, cov, walks, fail = cover_share(g, init, new, step, rng, share, left)
        out["steps"] += s
        out["covered"] += cov
        out["walks"] += walks
        left -= max(s, 1)
        if not fail:
            break
        ops, why = fail
        out["bad"].append({"ops": ops, "trace": json.loads(why)})
        # leave the edge that disagrees out and go on
        drop = json.dumps(ops[-1], sort_keys=True)
        before = g.state(seen_key(out["bad"][-1]["trace"]["init"]))
        g.out[before] = [e for e in g.out[before] if json.dumps(e[0], sort_keys=True) != drop]
        if len(out["bad"]) >= 20:
            break
    return out


def seen_key(o):
    return seen(o)


def cover_share(g, init, new, step, rng, share, budget):
    n, k = share
    if n == 1:
        return replay.cover(g, init, new, step, rng, max_len=150, budget=budget)
    h = replay.Graph()
    h.out = g.out
    return replay.cover(h, init, new, step, rng, max_len=150, budget=budget, mine=lambda s, e: (s * 7 + e) % n == k)


# ---------------------------------------------------------------- random histories


def shipped():
    import yaml
    from rosidl_runtime_py import set_message_fields
    from ros_bt_py_interfaces.msg import TreeStructure
    for p in sorted(glob.glob(os.path.join(REPO, "ros_bt_py/trees/*/*.yaml"))):
        try:
            with open(p) as f:
                d = yaml.safe_load(f)
            t = TreeStructure()
            d = {k: v for k, v in d.items() if hasattr(t, k)}
            set_message_fields(t, d)
            yield p, t
        except Exception:
            continue


def rich_pool():
    """The plain configurations and those of the nodes of the shipped trees."""
    pool = E.plain_pool()
    seeds = []
    for p, t in shipped():
        for n in t.nodes:
            if "ubtree" in n.node_class or "ileList" in n.node_class:
                continue
            c = pool.intern(n)
            if c and c not in seeds:
                seeds.append(c)
    return pool, seeds


NAMES = ["a", "b", "node", "ä", "x y", "0"]


class Gen:
    def __init__(self, rng, pool, cfgs):
        self.rng, self.pool, self.cfgs = rng, pool, cfgs
        self.fresh = 0
        self.kept = []    # observations of other trees, to load again

    def some(self, o, odd=0.06):
        r = self.rng
        ids = [x["id"] for x in o["nodes"]]
        if not ids or r.random() < odd:
            return r.choice([99, 98, -1])
        return r.choice(ids)

    def place(self, o, odd=0.06):
        """A parent and an index."""
        r = self.rng
        p = 0 if r.random() < 0.12 else self.some(o, odd)
        room = [x["id"] for x in o["nodes"] if x["cfg"] and self.pool.table[x["cfg"] - 1]["max"] not in (0, len(x["kids"]))]
        if p > 0 and r.random() < 0.85:
            p = r.choice(room) if room else 0
        kids = next((x["kids"] for x in o["nodes"] if x["id"] == p), [])
        n = len(kids)
        return p, r.choice([-1, -1, n, r.randrange(-n - 1, n + 1), r.randrange(-n - 3, n + 4) if r.random() < 0.1 else 0])

    def wires(self, o):
        r = self.rng
        T = self.pool.table
        outs = [(x["id"], s) for x in o["nodes"] if x["cfg"] for s in T[x["cfg"] - 1]["outs"]]
        ins = [(x["id"], s) for x in o["nodes"] if x["cfg"] for s in T[x["cfg"] - 1]["ins"]]
        res = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            if o["wires"] and r.random() < 0.3:
                res.append(r.choice(o["wires"]))
            elif outs and ins and r.random() < 0.9:
                a, s = r.choice(outs)
                good = [(b, i) for b, i in ins if i[2] == s[2] and not i[3]]
                b, i = r.choice(good) if good and r.random() < 0.7 else r.choice(ins)
                res.append([a, s[0], b, i[0]])
            else:
                res.append([self.some(o), r.choice(["o", "nothing"]), self.some(o), r.choice(["a", ""])])
        return res

    def options(self, o, i):
        """Values of some inputs: those of another node of the class, or values that do not fit."""
        r = self.rng
        T = self.pool.table
        c = next((x["cfg"] for x in o["nodes"] if x["id"] == i), 0) or r.choice(self.cfgs)
        same = [k for k in range(1, len(T) + 1) if T[k - 1]["cls"] == T[c - 1]["cls"]]
        other = r.choice(same)
        opts = [x for x in T[other - 1]["opts"] if r.random() < 0.7]
        if r.random() < 0.15:
            k = r.choice(self.cfgs)
            if T[k - 1]["opts"]:
                x = r.choice(T[k - 1]["opts"])
                opts = [y for y in opts if y[0] != x[0]] + [x]
        return opts

    def tree(self, o):
        r = self.rng
        src = copy.deepcopy(r.choice(self.kept + [o])) if self.kept else copy.deepcopy(o)
        m = {k: src[k] for k in ("nodes", "wires", "name", "path", "pin", "pout")}
        x = r.random()
        ns = m["nodes"]
        if x < 0.35 or not ns:
            return m
        for _ in range(r.choice([1, 1, 2])):
            if not ns:
                break
            y = r.random()
            n = r.choice(ns)
            if y < 0.12:
                n["kids"].insert(0, r.choice(ns)["id"])
            elif y < 0.2:
                n["kids"].append(97)
            elif y < 0.28:
                ns.append(copy.deepcopy(n))
            elif y < 0.34:
                n["id"] = r.choice(ns)["id"]
            elif y < 0.42:
                n["cfg"] = 0
            elif y < 0.5:
                n["cfg"] = r.choice(self.cfgs)
            elif y < 0.58:
                ns.remove(n)
            elif y < 0.66 and n["kids"]:
                n["kids"].pop()
            elif y < 0.72:
                r.shuffle(n["kids"])
            elif y < 0.86:
                m["wires"] += self.wires(src)
            elif y < 0.93:
                n["name"] = r.choice(NAMES)
            else:
                T = self.pool.table
                c = n["cfg"]
                if c and T[c - 1]["outs"]:
                    p = [n["id"], r.choice(T[c - 1]["outs"])[0]]
                    if p not in m["pout"]:
                        m["pout"].append(p)
        ids = [x["id"] for x in ns]
        m["pin"] = [p for p in m["pin"] if self.slot(ns, p, "ins")]
        m["pout"] = [p for p in m["pout"] if self.slot(ns, p, "outs")]
        if any(w[0] == -1 or w[2] == -1 for w in m["wires"]) or len(ids) > 14:
            return self.tree(o)
        return m

    def slot(self, ns, p, where):
        c = next((x["cfg"] for x in ns if x["id"] == p[0]), 0)
        return c and any(s[0] == p[1] for s in self.pool.table[c - 1][where])

    def op(self, o):
        r = self.rng
        size = len(o["nodes"])
        k = r.choices(["add", "remove", "move", "replace", "morph", "setopts", "wire", "unwire", "rename", "load", "reload", "clear", "look", "bad"],
                      [60 if size < 7 else 12, 6 + size, 14, 10, 9, 10, 22, 7, 2, 7, 2, 0.6, 3, 2])[0]
        if k == "add":
            p, x = self.place(o)
            self.fresh += 1
            cfg = r.choice(self.cfgs) if r.random() < 0.95 else 0
            kids = []
            if r.random() < 0.12:
                roots = [l["id"] for l in o["links"] if l["parent"] == 0]
                kids = [r.choice(roots) if roots and r.random() < 0.8 else self.some(o, 0.1) for _ in range(r.choice([1, 1, 2]))]
            if -1 in kids:
                kids = []
            return {"k": k, "new": self.fresh, "parent": p, "cfg": cfg, "name": r.choice(NAMES), "idx": x, "kids": kids,
                    "plain": x == -1 and r.random() < 0.5}
        if k == "remove":
            return {"k": k, "id": self.some(o), "all": r.random() < 0.4}
        if k == "move":
            p, x = self.place(o)
            return {"k": k, "id": self.some(o), "parent": p, "idx": x}
        if k == "replace":
            return {"k": k, "old": self.some(o), "new": self.some(o)}
        if k == "morph":
            return {"k": k, "id": self.some(o), "cfg": r.choice(self.cfgs) if r.random() < 0.92 else 0, "name": r.choice(NAMES)}
        if k == "setopts":
            i = self.some(o)
            return {"k": k, "id": i, "opts": self.options(o, i), "rename": r.random() < 0.4, "name": r.choice(NAMES)}
        if k in ("wire", "unwire"):
            return {"k": k, "wires": self.wires(o), "ignore": r.random() < 0.3}
        if k == "rename":
            return {"k": k, "name": r.choice(NAMES)}
        if k == "load":
            return {"k": k, "tree": self.tree(o)}
        if k == "look":
            return {"k": k, "id": self.some(o), "how": r.choice(["get", "make"])}
        if k == "bad":
            return {"k": k, "how": "path", "path": r.choice(bad_files())}
        return {"k": k}


BAD = []


def bad_files():
    """Paths that no tree can be loaded from."""
    if not BAD:
        d = tempfile.mkdtemp(dir=tlc.SCRATCH)
        BAD.extend(["", "/", "file://", "file:///nothing/here.yaml", "package://nothing/here.yaml", "http://x/y", "\0"])
        good = next(shipped())[0]
        with open(good) as f:
            text = f.read()
        for i, c in enumerate(["", "- a", "{", "version: 1.0.0\nnodes: 3", "version: 1.0.0\nname: x\nnodes: []", text.replace("node_class: ", "node_class: Not"),
                               text + "---\n" + text, text.replace("child_ids:", "child_ids:\n  - 00000000-0000-0000-0000-000000000099")]):
            with open(os.path.join(d, f"{i}.yaml"), "w") as f:
                f.write(c)
            BAD.append(f"file://{d}/{i}.yaml")
    return BAD


def record(args):
    seed, n, length = args
    rng = random.Random(seed)
    pool, seeds = rich_pool()
    traces = []
    for h in range(n):
        mix = rng.random()
        cfgs = list(range(1, 11)) if mix < 0.4 else rng.sample(seeds, min(6, len(seeds))) + [FLOW, DECO, PAIR, MIX]
        g = Gen(rng, pool, cfgs)
        e = E.Editor(pool)
        e.m.publish_structure()
        o = e.look()
        tr = {"init": o, "steps": []}
        for _ in range(length):
            op = g.op(o)
            if op["k"] == "setopts":
                c = next((x["cfg"] for x in o["nodes"] if x["id"] == op["id"]), 0)
                if c:
                    op["cfg"] = pool.merged(c, [e.opt(x) for x in op["opts"]])
            r = e.do(op)
            o = e.look()
            if r == "ok" and op["k"] == "load":
                g.fresh = max([g.fresh] + [x["id"] for x in o["nodes"] if x["id"] < 90])
            tr["steps"].append({"op": op, "r": r, "obs": o})
            if len(o["nodes"]) >= 3 and rng.random() < 0.1:
                g.kept.append(copy.deepcopy(o))
        traces.append(tr)
    return pool.table, traces


SHORT = {}


def compact(table):
    """The table with long strings replaced by short names."""
    s = SHORT

    def sh(x):
        return x if len(x) < 24 else s.setdefault(x, f"#{len(s)}")
    return [dict(c, opts=[[k, sh(v)] for k, v in c["opts"]], ins=[[k, sh(d), sh(t), f] for k, d, t, f in c["ins"]],
                 outs=[[k, sh(d), sh(t), f] for k, d, t, f in c["outs"]]) for c in table]


def slim(op):
    if op["k"] == "setopts":
        return dict(op, opts=[[k, v if len(v) < 24 else SHORT.setdefault(v, f"#{len(SHORT)}")] for k, v in op["opts"]])
    return op


def judge(groups):
    """groups: (table, traces); yields (group, trace, verdict) of what TLC rejects."""
    def job(n, table, traces):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump({"table": compact(table),
                       "traces": [dict(t, steps=[dict(s, op=slim(s["op"])) for s in t["steps"]]) for t in traces]}, f)
        verdicts = []
        res = tlc.run("EditTrace", env={"TRACES": path}, on_line=verdicts.append, heap="2g")
        os.unlink(path)
        if not res.ok or len(verdicts) != len(traces):
            raise RuntimeError(f"EditTrace failed ({len(verdicts)} of {len(traces)} verdicts):\n{res.out[-3000:]}")
        return [(n, v[0] - 1, v) for v in verdicts if v[2]]
    return [x for r in tlc.parallel([lambda n=n, g=g: job(n, *g) for n, g in enumerate(groups) if g[1]]) for x in r]


def run(check):
    quick = not THOROUGH
    names = [n for n, _ in cases(E.plain_pool())]
    split = {} if quick else {"place": 3, "adopt": 2, "kinds": 4, "limits": 3, "load": 2, "place4": 8}
    jobs = [(n, SEED + k, (split.get(n, 1), k), 4000 if quick else 200000) for n in names for k in range(split.get(n, 1))]
    with Pool(8) as pool:
        ex = pool.map_async(work, jobs, chunksize=1)
        results = ex.get()
        rec = pool.map(record, [(SEED * 1000 + i, 25 if quick else 400, 40) for i in range(8)], chunksize=1)
    mine = KIND[check.prop]
    bad = []
    done = set()
    for r in results:
        if r["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + r["model"][-4000:])
        if r["case"] not in done:
            check.add(states=r["states"], transitions=r["transitions"])
            done.add(r["case"])
        check.add(traces_validated_against_impl=r["walks"], steps_replayed=r["steps"], transitions_replayed=r["covered"])
        bad += r["bad"]
    table = E.plain_pool().table
    for n, i, v in judge([(table, [b["trace"] for b in bad])]) if bad else []:
        for w in v[2]:
            if w[0] in mine:
                check.violation(f"{bad[i]['ops'][-1]['k']}: {' '.join(w[1:])} ({bad[i]['trace']['steps'][-1]['r']})", bad[i])
    check.add(traces_validated_against_impl=sum(len(t) for _, t in rec), recorded_steps=sum(len(x["steps"]) for _, t in rec for x in t))
    check.sample(rec[0][1][0]["steps"][:4])
    for n, i, v in judge(rec):
        tr = rec[n][1][i]
        for w in v[2]:
            if w[0] in mine:
                s = tr["steps"][v[1] - 1]
                check.violation(f"{s['op']['k']}: {' '.join(w[1:])} ({s['r']})", {"init": tr["init"], "steps": tr["steps"][:v[1]], "verdict": v})
    check.cov["exhaustive"] = check.cov["transitions"] == check.cov["transitions_replayed"]
    check.assumptions += ["node configurations are compared by the message the node publishes",
                          "requests whose outcome the documentation leaves open (indices out of range, moves within a full parent) are not judged"]
