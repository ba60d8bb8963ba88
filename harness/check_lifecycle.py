"""C01: every call of every node obeys BTLifecycle.

1. TLC checks the protocol's guarantees on all behaviours of the protocol itself (LifecycleMC).
2. Every answer a node's code can give, in every lifecycle state: KernelMC on single leaves and one-child
   trees including answers that are not permitted, replayed completely on the real nodes.
3. Random trees of all node types with scripted errors and forbidden answers: every call of every node is
   recorded and judged by LifecycleTrace.
"""

import random

import boot
import check_kernel as CK
import kernel as K
import tlc
from pool import Pool
from common import SEED, THOROUGH
from kernel import T, L
from record import Recorder

KINDS = K.KINDS


def lifecycle_trees():
    out = []
    for p in (0, 1):
        out.append(K.vectors(K.flatten(L(p1=p)), tickouts=K.STATES + ["ASSIGNED", "UNASSIGNED", "PAUSED", "SHUTDOWN"], bad=True))
    for ty in ("SDEC", "IGNF", "SEQ", "PAR", "WATCH", "NSW"):
        out.append(K.vectors(K.flatten(T(ty, L(), p1=int(ty == "PAR")))))
    out.append(K.vectors(K.flatten(T("WAIT", p1=2))))
    return out


def record(args):
    seed, count, length = args
    rng = random.Random(seed)
    traces = []
    types = sorted(K.FLOW) + K.ALL_DECO
    K.classes()
    from ros_bt_py.debug_manager import DebugManager

    for _ in range(count):
        tr = K.random_tree(rng, types, rng.choice([0, 1, 2, 3]), ("LEAF", "LEAF", "WAIT"), max_kids=3)
        if tr["n"] > 12:
            continue
        t = K.Tree(tr)
        if rng.random() < 0.4:
            dm = DebugManager(t.ros, lambda m: None)
            dm._collect_node_diagnostics = rng.random() < 0.5
            for n in t.nodes:
                n.debug_manager = dm
        rec = Recorder(t.nodes)
        now = 0
        err = rng.choice([0.02, 0.1, 0.3])
        ops = []
        for j in range(length):
            now += rng.choice([0, 1, 3])
            k = rng.choices(KINDS, weights=[15, 50, 12, 12, 8])[0] if j else rng.choice(["setup"] * 4 + KINDS)
            op = K.random_op(rng, tr, k, now, err if rng.random() < 0.5 else 0)
            for i in range(tr["n"]):
                if tr["type"][i] == "LEAF" and rng.random() < err / 2:
                    op["scr"][i] = rng.choice(["bad", "ASSIGNED", "UNASSIGNED", "PAUSED", "SHUTDOWN", "BROKEN"])
            if rng.random() < 0.15:
                # calls that reach inner nodes directly
                i = rng.randrange(tr["n"])
                t.op, t.ros.nanos = op, int(now * 1e9)
                ops.append([i + 1, op])
                getattr(t.nodes[i], k)()
            else:
                ops.append([1, op])
                t.apply(op)
        traces.append({"n": tr["n"], "ev": rec.ev, "tree": CK.describe(tr), "ops": ops})
    return traces


def run(check):
    K.classes()
    mc = tlc.run("LifecycleMC", workers=4)
    if not mc.ok:
        raise RuntimeError(mc.violation[-3000:])
    check.add(states=mc.distinct, transitions=mc.states)
    count, length = (400, 60) if THOROUGH else (40, 30)
    chunks = [[t] for t in lifecycle_trees()]
    with Pool(8) as pool:
        results = pool.map(CK.explore, [("C01", c, SEED + i, 200000 if THOROUGH else 5000) for i, c in enumerate(chunks)], chunksize=1)
        traces = [t for ts in pool.map(record, [(SEED * 1000 + i, count, length) for i in range(8)], chunksize=1) for t in ts]
    CK.absorb(check, results)
    for i, v in CK.validate("LifecycleTrace", [{"n": t["n"], "ev": t["ev"]} for t in traces], check):
        t = traces[i]
        check.violation(f"{t['tree']}: event {v[1]} {v[3]}: {v[2]}", {"tree": t["tree"], "ops": t["ops"], "why": v})
    check.add(traces_validated_against_impl=len(traces), recorded_events=sum(len(t["ev"]) for t in traces))
    check.sample({"tree": traces[0]["tree"], "events": traces[0]["ev"][:12]})
    check.assumptions += ["node code answers with a result object (exceptions from node code are C13's and C28's subject)"]
