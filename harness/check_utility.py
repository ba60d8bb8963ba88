"""C24: cost bounds of sequences, fallbacks and parallels.

TLC enumerates nodes with up to three children and all bounds (UtilityMC) and shows that the costed ways are those of the results the
nodes have; real trees of these and random nested trees report their bounds, judged by TLC (UtilityTrace)."""

import json
import os
import random
import tempfile

import boot
import tlc
from pool import Pool
from common import SEED, THOROUGH

FIELDS = {"ls": "lower_bound_success", "us": "upper_bound_success", "lf": "lower_bound_failure", "uf": "upper_bound_failure"}
KINDS = ["SEQ", "MSEQ", "FB", "MFB", "PAR", "PFT"]
_cls = {}


def load():
    if _cls:
        return _cls
    from ros_bt_py.helpers import BTNodeState
    from ros_bt_py.node import Decorator, Leaf, define_bt_node
    from ros_bt_py.node_config import NodeConfig
    from ros_bt_py.nodes import decorators, fallback, parallel, sequence
    from ros_bt_py.vendor.result import Ok
    from ros_bt_py_interfaces.msg import UtilityBounds

    class Ops:
        def _do_setup(self):
            for c in self.children:
                c.setup()
            return Ok(BTNodeState.IDLE)

        def _do_tick(self):
            return Ok(self.rng.choice(["RUNNING", "SUCCEEDED", "FAILED"])) if not self.children else self.children[0].tick()

        def _do_untick(self):
            return Ok(BTNodeState.IDLE)

        _do_reset = _do_untick

        def _do_shutdown(self):
            return Ok(BTNodeState.SHUTDOWN)

    @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
    class CostLeaf(Ops, Leaf):
        bounds = None

        def _do_calculate_utility(self):
            b = self.bounds
            m = UtilityBounds(can_execute=b["can"])
            for f, name in FIELDS.items():
                setattr(m, "has_" + name, bool(b[f]))
                # the value of a bound that is not there means nothing
                setattr(m, name, float(b[f][0] if b[f] else self.rng.choice([0, 0, 7, -7])))
            return Ok(m)

    @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
    class FreeLeaf(Ops, Leaf):
        pass

    @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=1))
    class PlainDecorator(Ops, Decorator):
        pass

    _cls.update(COST=CostLeaf, FREE=FreeLeaf, DEC=PlainDecorator, OPT=decorators.Optional, SEQ=sequence.Sequence, MSEQ=sequence.MemorySequence,
                FB=fallback.Fallback, MFB=fallback.MemoryFallback, PAR=parallel.Parallel, PFT=parallel.ParallelFailureTolerance)
    return _cls


def build(tr, rng, ros):
    from ros_bt_py.data_types import IntType
    ins = {}
    if tr["k"] in ("PAR", "PFT"):
        ins["needed_successes"] = IntType(allow_dynamic=False, value=tr["p1"], min_value=1)
    if tr["k"] == "PFT":
        ins["tolerate_failures"] = IntType(allow_dynamic=False, value=tr["p2"], min_value=0)
    n = load()[tr["k"]](name="n", new_inputs=ins, ros_node=ros)
    n.rng = rng
    if tr["k"] == "COST":
        n.bounds = tr["b"]
    for c in tr["kids"]:
        n.add_child(build(c, rng, ros)).unwrap()
    return n


def observe(n):
    r = n.calculate_utility()
    m = r.unwrap()
    got = {"can": bool(m.can_execute)}
    for f, name in FIELDS.items():
        v = getattr(m, name)
        got[f] = [int(v)] if getattr(m, "has_" + name) else []
        if got[f] and got[f][0] != v:
            got[f] = [10 ** 6]
    return got


def leaf(b):
    return {"k": "COST", "p1": 0, "p2": 0, "b": b, "kids": []}


def node(k, kids, p1=0, p2=0):
    return {"k": k, "p1": p1, "p2": p2, "b": {}, "kids": kids}


def bounds(rng):
    b = {"can": rng.random() < 0.95}
    for lo, up in (("ls", "us"), ("lf", "uf")):
        x = sorted(rng.choices(range(-3 if rng.random() < 0.2 else 0, 9), k=2))
        b[lo] = [x[0]] if rng.random() < 0.8 else []
        b[up] = [x[1]] if rng.random() < 0.8 else []
    return b


def random_tree(rng, depth):
    if depth == 0 or rng.random() < 0.25:
        return node("FREE", []) if rng.random() < 0.15 else leaf(bounds(rng))
    k = rng.choice(KINDS + KINDS + ["DEC", "OPT"])
    n = 1 if k in ("DEC", "OPT") else rng.choice([1, 2, 2, 3, 3, 4])
    kids = [random_tree(rng, depth - 1) for _ in range(n)]
    return node(k, kids, rng.randint(1, n) if k in ("PAR", "PFT") else 0, rng.randint(0, n - 1) if k == "PFT" else 0)


def work(args):
    trees, seed, ticked = args
    rng = random.Random(seed)
    ros = boot.make_ros_node()
    out = []
    for tr in trees if trees is not None else (random_tree(rng, rng.choice([1, 2, 3])) for _ in range(ticked)):
        n = build(tr, rng, ros)
        try:
            first = observe(n)
            out.append({"tree": tr, "got": first, "when": "new"})
            if trees is None or rng.random() < 0.05:
                for op in ["setup"] + rng.choices(["tick", "tick", "untick", "reset"], k=rng.randrange(5)):
                    getattr(n, op)()
                again = observe(n)
                if again != first:
                    out.append({"tree": tr, "got": again, "when": "executed"})
        except Exception as x:
            out.append({"tree": tr, "got": {"can": False, "ls": [], "us": [], "lf": [], "uf": []}, "when": repr(x)})
    return out


def judge(facts):
    def job(chunk, at):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        res = tlc.run("UtilityTrace", env={"FACTS": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or res.distinct != len(chunk) + 1:
            raise RuntimeError(f"UtilityTrace failed:\n{res.out[-3000:]}")
        return [(at + v[0] - 1, v[1], v[2]) for v in vs]
    size = max(1, -(-len(facts) // 8))
    return [x for r in tlc.parallel([lambda i=i: job(facts[i:i + size], i) for i in range(0, len(facts), size)]) for x in r]


def show(tr):
    a = ",".join(str(tr[x]) for x in ("p1", "p2") if tr["k"] == "PFT" or tr["k"] == "PAR" and x == "p1")
    kids = ", ".join(show(c) for c in tr["kids"])
    if tr["k"] == "COST":
        b = tr["b"]
        one = lambda x: str(x[0]) if x else "-"
        return "{" + (f"{one(b['ls'])}..{one(b['us'])}/{one(b['lf'])}..{one(b['uf'])}" if b["can"] else "no") + "}"
    return tr["k"] + (f"[{a}]" if a else "") + f"({kids})"


def run(check):
    load()
    cases = []
    mc = tlc.run("UtilityMC", cfg="UtilityWide" if THOROUGH else None, workers=8, heap="8g", on_line=cases.append)
    if not mc.ok:
        raise RuntimeError("the specification violates its own properties:\n" + mc.violation[-3000:])
    check.add(states=mc.distinct, transitions=mc.states)
    trees = [node(k, [leaf(x) for x in b], p, t) for k, p, t, b in cases]
    rng = random.Random(SEED)
    rng.shuffle(trees)
    with Pool(8) as pool:
        jobs = [(trees[i:i + 500], SEED * 7 + i, 0) for i in range(0, len(trees), 500)]
        jobs += [(None, SEED * 1000 + i, 250) for i in range(32 if not THOROUGH else 400)]
        facts = [f for o in pool.imap_unordered(work, jobs) for f in o]
    check.add(traces_validated_against_impl=len(facts), enumerated_nodes=len(trees))
    check.sample({"tree": show(facts[0]["tree"]), "got": facts[0]["got"]})
    for i, v, want in judge(facts):
        f = facts[i]
        check.violation(f"{show(f['tree'])} ({f['when']}): {v}: {f['got']}, should be {want}", {"fact": f, "verdict": v, "want": want})
    check.assumptions += ["costs are whole numbers, so that sums of floating point numbers are exact",
                          "children are independent: the cost of a way is the sum over the children that contribute to the result"]
