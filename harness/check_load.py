"""C18, C19: saving and loading.

C18: in every tree the editing model reaches, in every shipped tree and in trees made by random histories, the tree is saved to a
file by the real package manager (and taken as published), loaded into another manager, compared, and both are ticked.
C19: damaged tree files and tree messages are loaded; EditTrace judges answers and trees.
"""

import copy
import glob
import json
import os
import random
import tempfile
import threading

import check_edit as CE
import edit as E
import replay
import tlc
from pool import Pool
from common import SEED, THOROUGH

import yaml
from ros_bt_py.package_manager import PackageManager
from ros_bt_py_interfaces.msg import TreeStructure
from ros_bt_py_interfaces.srv import ControlTreeExecution as CT
from ros_bt_py_interfaces.srv import LoadTree, LoadTreeFromPath, ReloadTree, SaveTree

threading.excepthook = lambda a: None
STORE = tempfile.mkdtemp(dir=tlc.SCRATCH)
SAVER = None


def saver():
    global SAVER
    if SAVER is None:
        SAVER = PackageManager(publish_message_list_callback=None, publish_packages_list_callback=None,
                               tree_storage_directory_paths=[STORE])
    return SAVER


def runnable(e):
    """Nothing in the tree depends on time, chance or ROS."""
    return all(x.module == "editnodes" or x.module.startswith("ros_bt_py.nodes.") and "Random" not in x.node_class and "Wait" not in x.node_class
               for x in e.published.tree_structures[-1].nodes)


def run_tree(e):
    """States and outputs after some ticks."""
    res = []
    for _ in range(3):
        try:
            with E.contextlib.redirect_stdout(E.NOWHERE), E.limit(10):
                r = e.m.control_execution(CT.Request(command=CT.Request.TICK_ONCE), CT.Response())
            ans = r.success
        except E.Hang:
            ans = "does not answer"
        except Exception as ex:
            ans = type(ex).__name__
        res.append([str(ans), sorted([e.n(i), "NOT SET UP" if str(n.state) in ("UNINITIALIZED", "SHUTDOWN") else str(n.state),
                                      [[k, value(c)] for k, c in n.node_config.outputs.items()]] for i, n in e.m.nodes.items())])
    with E.contextlib.redirect_stdout(E.NOWHERE):
        e.m.control_execution(CT.Request(command=CT.Request.SHUTDOWN), CT.Response())
    return json.dumps(res)


def value(c):
    try:
        return c.serialize_value()
    except Exception as ex:
        return type(ex).__name__


def other(e, cls=None):
    """Another manager that gives the same numbers to the same nodes."""
    f = E.Editor(e.pool)
    f.num, f.uid = e.num, e.uid
    return f


def answer(f, req, resp):
    try:
        with E.contextlib.redirect_stdout(E.NOWHERE), E.limit(10):
            return "ok" if f(req, resp).success else "fail"
    except E.Hang:
        return "does not answer"
    except Exception as ex:
        return "raises " + type(ex).__name__ + ": " + str(ex)[:100]


COUNT = 0


def round_trip(e, way, used=None, run=False):
    """used: a manager to load into."""
    global COUNT
    for x in e.published.tree_structures[-1].nodes:
        e.pool.intern(x)
    before = e.look()
    msg = copy.deepcopy([t for t in e.published.tree_structures if t.tree_id == str(E.ZERO)][-1])
    path = before["path"]
    f = used or other(e)
    if way == "file":
        COUNT += 1
        name = f"{os.getpid()}/{COUNT}.yaml"
        sr = SaveTree.Response()
        a = answer(lambda q, s: saver().save_tree_to_path(request=q, response=s),
                   SaveTree.Request(tree=msg, storage_path=STORE, filepath=name), sr)
        path = "file://" + os.path.join(STORE, name)
        r = a if a != "ok" else answer(f.m.load_tree_from_path, LoadTreeFromPath.Request(path=path), LoadTreeFromPath.Response())
    elif way == "message":
        r = answer(f.m.load_tree, LoadTree.Request(tree=msg), LoadTree.Response())
    else:
        f = e
        r = answer(f.m.reload_tree, ReloadTree.Request(), ReloadTree.Response())
    after = f.look()
    runs = ["", ""]
    if run and r == "ok" and f is not e and before["root"] != 0 and runnable(e):
        runs = [run_tree(e), run_tree(f)]
    return {"way": way, "before": before, "path": path, "r": r, "after": after, "runs": runs}


def reached(args):
    """Every state of a case of the editing model."""
    name, seed, run_share = args
    pool = E.plain_pool()
    case = dict(CE.cases(pool))[name]
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump(case, f)
    g = replay.Graph()

    def line(v):
        a, op, must, b = v
        b = CE.tup(b)
        g.edge(g.state(CE.tup(a)), op, (must, b), g.state(b))

    res = tlc.run("EditMC", env={"CASE": path}, on_line=line, heap="3g")
    os.unlink(path)
    out = {"model": None if res.ok else res.violation, "states": res.distinct, "transitions": g.edges, "traces": [], "walks": 0}
    if not res.ok:
        return out
    init = g.state(CE.tup({"nodes": [], "wires": [], "name": "UNKNOWN TREE", "path": "", "pin": [], "pout": []}))
    found, queue, tree = {init}, [init], set()
    for s in queue:
        for i, (op, exp, d) in enumerate(g.out[s]):
            if d not in found:
                found.add(d)
                queue.append(d)
                tree.add((s, i))
    rng = random.Random(seed)
    last = [None]

    def new():
        e = E.Editor(pool)
        e.m.publish_structure()
        return e

    def step(e, op, exp):
        e.do(op)
        o = e.look()
        if CE.seen(o) != exp[1]:
            return "the tree is another one"     # C17
        if o["nodes"] and json.dumps(CE.seen(o), sort_keys=True) not in done:
            done.add(json.dumps(CE.seen(o), sort_keys=True))
            way = rng.choice(["file", "file", "message", "reload"])
            used = last[0] if last[0] is not None and rng.random() < 0.5 and last[0].m is not e.m else None
            if used is not None:
                used.num, used.uid = e.num, e.uid
            out["traces"].append(round_trip(e, way, used, rng.random() < run_share))
            if way != "reload":
                last[0] = other(e)
                last[0].m.load_tree(LoadTree.Request(tree=copy.deepcopy(e.published.tree_structures[-1])), LoadTree.Response())
        return None

    done = set()
    for _ in range(5):
        s, cov, w, fail = replay.cover(g, init, new, step, rng, max_len=100, mine=lambda s, i: (s, i) in tree)
        out["walks"] += w
        if not fail:
            break
        ops = fail[0]
        for s in range(len(g.out)):
            g.out[s] = [x for x in g.out[s] if x[0] is not ops[-1]]
        tree = {(s, i) for s in range(len(g.out)) for i, x in enumerate(g.out[s]) if True}
        break
    return out


def histories(args):
    seed, n, which = args
    rng = random.Random(seed)
    pool, seeds = CE.rich_pool()
    traces = []
    for k, (p, t) in enumerate(CE.shipped()):
        if k % 8 != which:
            continue
        e = E.Editor(pool)
        if answer(e.m.load_tree, LoadTree.Request(tree=t), LoadTree.Response()) != "ok":
            continue
        for x in e.published.tree_structures[-1].nodes:
            pool.intern(x)
        for way in ("file", "message", "reload"):
            traces.append(round_trip(e, way, None, True))
    for h in range(n):
        cfgs = list(range(1, 11)) if rng.random() < 0.3 else rng.sample(seeds, min(8, len(seeds))) + [CE.FLOW, CE.DECO, CE.MIX]
        g = CE.Gen(rng, pool, cfgs)
        e = E.Editor(pool)
        e.m.publish_structure()
        o = e.look()
        f = None
        for j in range(25):
            op = g.op(o)
            if op["k"] in ("clear", "bad"):
                continue
            e.do(op)
            o = e.look()
            if op["k"] == "load":
                g.fresh = max([g.fresh] + [x["id"] for x in o["nodes"] if x["id"] < 90])
            if j % 8 == 7 and o["nodes"]:
                way = rng.choice(["file", "file", "message", "reload"])
                traces.append(round_trip(e, way, f if rng.random() < 0.5 else None, j == 23 or rng.random() < 0.5))
                f = other(e)
                answer(f.m.load_tree, LoadTree.Request(tree=copy.deepcopy(e.published.tree_structures[-1])), LoadTree.Response())
                o = e.look()
    return pool.table, traces


# ---------------------------------------------------------------- C19

ODD = [None, -1, 0, 3, 10**30, 1.5, float("nan"), "", "x", "no id", [], {}, [None], [[]], {"a": 1}, True, "\x07", "ä" * 50, "00000000-0000-0000-0000-000000000001",
       ["00000000-0000-0000-0000-000000000000"], '{"py/object": "os.system"}', "null", "[", "1" * 400, "-" + "1" * 5000, "../../x", "2024-01-01"]


def spots(x, path=()):
    yield path
    if isinstance(x, dict):
        for k in list(x):
            yield from spots(x[k], path + (k,))
    elif isinstance(x, list):
        for i in range(len(x)):
            yield from spots(x[i], path + (i,))


def at(x, path):
    for k in path:
        x = x[k]
    return x


def damage(rng, d):
    """Changes something in the contents of a tree file."""
    d = copy.deepcopy(d)
    for _ in range(rng.choice([1, 1, 1, 2, 4])):
        ps = [p for p in spots(d) if p]
        if not ps:
            break
        p = rng.choice(ps)
        if rng.random() < 0.35:
            ids = [q for q in ps if q[-1] in ("child_ids", "node_id", "module", "node_class", "version", "serialized_value", "nodes", "data_wirings", "root_id",
                                              "type_identifier", "data_key", "serialized_value_options", "max_children", "key")]
            p = rng.choice(ids or ps)
        up = at(d, p[:-1])
        x = rng.random()
        if x < 0.2:
            del up[p[-1]]
        elif x < 0.6:
            up[p[-1]] = rng.choice(ODD)
        elif x < 0.75:
            up[p[-1]] = copy.deepcopy(at(d, rng.choice(ps)))
        elif x < 0.85 and isinstance(up, list):
            up.append(copy.deepcopy(up[p[-1]]))
        elif isinstance(up, dict):
            v = up.pop(p[-1])
            up[rng.choice([rng.choice(ps)[-1], "thing", 3, None])] = v
    return d


def scramble(rng, text):
    """Changes the text of a tree file."""
    b = bytearray(text.encode())
    for _ in range(rng.choice([1, 1, 2, 5])):
        i = rng.randrange(len(b) + 1)
        x = rng.random()
        if x < 0.3:
            del b[i:i + rng.choice([1, 2, 10, 200])]
        elif x < 0.6:
            b[i:i] = rng.choice([b"\0", b"\xff", b"\t", b"-", b": ", b"\n", b"&a", b"*a", b"!!python/object:os.system", b"---\n", b"{", b"'", b"\x07", b"  "])
        elif x < 0.8:
            j = rng.randrange(len(b) + 1)
            b[i:i] = b[j:j + rng.choice([5, 50, 500])]
        elif x < 0.9:
            del b[i:]
        else:
            if i < len(b):
                b[i] = rng.randrange(256)
    return bytes(b)


def special(d):
    """Files that are wrong in particular ways."""
    self = f"file://{d}/self.yaml"
    sub = ("version: 1.0.0\nname: x\nnodes:\n- module: ros_bt_py.ros_nodes.subtree\n  node_class: Subtree\n  name: s\n"
           "  node_id: 00000000-0000-0000-0000-000000000%s\n  inputs:\n  - key: subtree_path\n"
           "    type: {type_identifier: 8, allow_static: true, is_static: true}\n    serialized_value: '\"%s\"'\n")
    yield "self.yaml", (sub % ("005", self)).encode()
    yield "ping.yaml", (sub % ("006", f"file://{d}/pong.yaml")).encode()
    yield "pong.yaml", (sub % ("007", f"file://{d}/ping.yaml")).encode()
    yield "deep.yaml", b"version: 1.0.0\nname: " + b"[" * 3000 + b"]" * 3000
    yield "loop.yaml", b"version: 1.0.0\nname: x\nnodes: &a [*a]\n"
    yield "loop2.yaml", b"&a\nversion: 1.0.0\nname: x\nnodes:\n- *a\n"
    yield "tags.yaml", b"version: !!python/name:os.system\nname: x\n"
    yield "none.yaml", b"null\n"
    yield "list.yaml", b"- 1\n- 2\n"
    yield "text.yaml", b"hello"
    yield "nul.yaml", b"\0\0"
    yield "ver.yaml", b"version: not a version\nname: x\nnodes: []\n"
    yield "ver2.yaml", b"version: [1]\nname: x\nnodes: []\n"
    yield "old.yaml", b"name: x\nnodes:\n- 3\n"
    yield "two.yaml", b"version: 1.0.0\nname: x\n---\nname: y\n"
    yield "empty.yaml", b""


def fuzz(args):
    seed, n = args
    rng = random.Random(seed)
    pool = E.plain_pool()
    d = tempfile.mkdtemp(dir=tlc.SCRATCH)
    files = []
    for p in sorted(glob.glob(os.path.join(CE.REPO, "ros_bt_py/trees/*/*.yaml"))) + sorted(glob.glob(os.path.join(CE.REPO, "ros_bt_py/tests/**/*.yaml"), recursive=True)):
        with open(p) as f:
            t = f.read()
        try:
            files.append((t, yaml.safe_load(t)))
        except Exception:
            files.append((t, None))
    todo = list(special(d)) if seed % 8 == 0 else []
    for name, data in todo:
        with open(os.path.join(d, name), "wb") as f:
            f.write(data)
    traces = []
    kept = [CE.msg([CE.node(1, CE.FLOW, [2, 3]), CE.node(2, CE.INT0), CE.node(3, CE.INT1)], [[2, "o", 3, "a"]])]
    for h in range(n):
        e = E.Editor(pool)
        e.do({"k": "load", "tree": rng.choice(kept)})
        o = e.look()
        tr = {"init": o, "steps": []}
        g = CE.Gen(rng, pool, list(range(1, 11)))
        g.kept = [dict(k, links=[]) for k in kept]
        for _ in range(12):
            x = rng.random()
            why = ""
            if todo or x < 0.75:
                if todo:
                    name, data = todo.pop()
                else:
                    text, doc = rng.choice(files)
                    name = "f.yaml"
                    if x < 0.25 or not isinstance(doc, dict):
                        data = scramble(rng, text)
                    else:
                        doc = damage(rng, doc)
                        try:
                            data = yaml.safe_dump(doc).encode()
                        except Exception:
                            data = repr(doc).encode()
                    if rng.random() < 0.1:
                        data = data.replace(b"version: 1.0.0", b"version: 0.%d.0" % rng.randrange(10))
                path = os.path.join(d, name)
                with open(path, "wb") as f:
                    f.write(data)
                why = data.decode(errors="replace")
                op = {"k": "file"}
                r = answer(e.m.load_tree_from_path, LoadTreeFromPath.Request(path="file://" + path), LoadTreeFromPath.Response())
            elif x < 0.85:
                op = {"k": "file"}
                text, doc = rng.choice(files)
                t = TreeStructure()
                try:
                    doc = damage(rng, doc)
                    from rosidl_runtime_py import set_message_fields
                    set_message_fields(t, {k: v for k, v in doc.items() if hasattr(t, k)})
                except Exception:
                    pass
                why = repr(t)
                r = answer(e.m.load_tree, LoadTree.Request(tree=t), LoadTree.Response())
            else:
                op = {"k": "load", "tree": g.tree(o)}
                r = e.do(op)
            o = e.look()
            if op["k"] == "file" and r == "ok":
                for x in e.published.tree_structures[-1].nodes:
                    pool.intern(x)
                o = e.look()
            tr["steps"].append({"op": op, "r": r, "obs": o, "why": why})
            if r == "ok" and op["k"] == "file":
                e.do({"k": "load", "tree": rng.choice(kept)})
                o = e.look()
                tr["steps"].append({"op": {"k": "file"}, "r": "ok", "obs": o, "why": "(a good tree)"})
        traces.append(tr)
    return pool.table, traces


def judge_trips(groups):
    def job(n, table, traces):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump({"table": CE.compact(table), "traces": traces}, f)
        verdicts = []
        res = tlc.run("RoundTrip", env={"TRACES": path}, on_line=verdicts.append, heap="2g")
        os.unlink(path)
        if not res.ok or len(verdicts) != len(traces):
            raise RuntimeError(f"RoundTrip failed ({len(verdicts)} of {len(traces)} verdicts):\n{res.out[-3000:]}")
        return [(n, v[0] - 1, v[2]) for v in verdicts if v[2]]
    return [x for r in tlc.parallel([lambda n=n, g=g: job(n, *g) for n, g in enumerate(groups) if g[1]]) for x in r]


def run_c18(check):
    quick = not THOROUGH
    table = E.plain_pool().table
    names = [n for n, _ in CE.cases(E.plain_pool()) if n != "place4"]
    with Pool(8) as pool:
        a = pool.map_async(reached, [(n, SEED, 0.15 if quick else 1) for n in names], chunksize=1)
        b = pool.map_async(histories, [(SEED * 1000 + i, 14 if quick else 300, i) for i in range(8)], chunksize=1)
        model, rec = a.get(), b.get()
    groups = []
    for r in model:
        if r["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + r["model"][-4000:])
        check.add(states=r["states"], transitions=r["transitions"], states_saved_and_loaded=len(r["traces"]))
        groups.append((table, r["traces"]))
    groups += rec
    check.add(traces_validated_against_impl=sum(len(t) for _, t in groups), runs_compared=sum(bool(x["runs"][0]) for _, t in groups for x in t))
    check.sample({k: v for k, v in groups[0][1][0].items() if k != "runs"})
    for n, i, v in judge_trips(groups):
        x = groups[n][1][i]
        check.violation(f"a tree that was loaded again ({x['way']}): {v[0]} {x['r'] if x['r'] != 'ok' else ''}", {"trip": x, "verdict": v})
    check.assumptions += ["trees whose nodes depend on time, chance or ROS are not run", "files are written by the package manager's save service"]


def run_c19(check):
    with Pool(8) as pool:
        rec = pool.map(fuzz, [(SEED * 8000 + i, 22 if not THOROUGH else 500) for i in range(8)], chunksize=1)
    steps = [s for _, t in rec for x in t for s in x["steps"]]
    check.add(traces_validated_against_impl=sum(len(t) for _, t in rec), loads=len(steps), accepted=sum(s["r"] == "ok" for s in steps), refused=sum(s["r"] == "fail" for s in steps))
    check.sample([{k: s[k] for k in ("op", "r", "why")} for s in steps[:2]])
    case = dict(CE.cases(E.plain_pool()))["load"]
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump(case, f)
    res = tlc.run("EditMC", env={"CASE": path}, on_line=lambda v: None)
    os.unlink(path)
    if not res.ok:
        raise RuntimeError(res.violation)
    check.add(states=res.distinct, transitions=res.states)
    strip = [(t, [dict(x, steps=[{k: v for k, v in s.items() if k != "why"} for s in x["steps"]]) for x in ts]) for t, ts in rec]
    for n, i, v in CE.judge(strip):
        tr = rec[n][1][i]
        s = tr["steps"][v[1] - 1]
        for w in v[2]:
            if w[0] in ("raise", "form") or w[1].startswith("accepts"):
                check.violation(f"loading: {' '.join(w[1:])} ({s['r']})", {"step": s, "init": tr["init"], "verdict": v})
    check.assumptions += ["bounded time means ten seconds", "special files (pipes, devices) are not loaded"]


def run(check):
    (run_c18 if check.prop == "C18" else run_c19)(check)
