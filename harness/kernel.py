"""Binding of spec/BTKernel.tla to the real node classes."""

import itertools
import random

import boot

STATES = ["RUNNING", "SUCCEEDED", "FAILED"]
SCRIPTED = {"LEAF", "SDEC"}
HASINPUT = {"NSW", "ESW", "WATCH", "RNAR", "ITER"}
FLOW = {"SEQ", "MSEQ", "FB", "MFB", "PAR", "PFT", "NSW", "ESW"}
KINDS = ["setup", "tick", "untick", "reset", "shutdown"]
ESW_NAMES = ["PRIMARY_STATE_UNKNOWN", "PRIMARY_STATE_UNCONFIGURED", "PRIMARY_STATE_INACTIVE",
             "PRIMARY_STATE_ACTIVE", "PRIMARY_STATE_FINALIZED", "TRANSITION_STATE_CONFIGURING"]


# ---------------------------------------------------------------- abstract trees

def T(ty, *kids, p1=0, p2=0):
    return (ty, p1, p2, list(kids))


def L(p1=0, p2=0):
    return T("LEAF", p1=p1, p2=p2)


def flatten(t):
    tr = {"n": 0, "type": [], "kids": [], "p1": [], "p2": []}

    def rec(x):
        i = tr["n"] = tr["n"] + 1
        tr["type"].append(x[0])
        tr["p1"].append(x[1])
        tr["p2"].append(x[2])
        tr["kids"].append([])
        tr["kids"][i - 1] = [rec(c) for c in x[3]]
        return i

    rec(t)
    return tr


def input_values(tr, i):
    """Values worth writing to the input of node i (0-based)."""
    ty = tr["type"][i]
    n = len(tr["kids"][i])
    if ty in ("NSW", "ESW"):
        return [[v] for v in range(0, n + 1)] + ([[-1]] if ty == "ESW" else [])
    if ty == "WATCH":
        return [[1], [2]]
    if ty == "RNAR":
        return [[0], [1]]
    if ty == "ITER":
        return [[], [1], [1, 2]] + ([[1, 1, 2]] if tr["n"] <= 2 else [])
    return []


def vectors(tr, tickouts=STATES, errors=True, bad=False):
    """Operation scripts and input vectors for exhaustive exploration of tree tr."""
    n = tr["n"]
    leaves = [i for i in range(n) if tr["type"][i] == "LEAF"]
    sdecs = [i for i in range(n) if tr["type"][i] == "SDEC"]
    blank = [""] * n
    ticks = []
    for combo in itertools.product(tickouts, repeat=len(leaves)):
        v = list(blank)
        for i, c in zip(leaves, combo):
            v[i] = c
        ticks.append(v)
    others = {k: [list(blank)] for k in KINDS if k != "tick"}
    if errors:
        for i in leaves:
            for code in ("err", "xs", "xf"):
                for rest in STATES:
                    v = [rest if j in leaves else "" for j in range(n)]
                    v[i] = code
                    ticks.append(v)
            for k in others:
                for code in ("err", "bad") if bad else ("err",):
                    v = list(blank)
                    v[i] = code
                    others[k].append(v)
        for i in sdecs:
            for k in KINDS:
                v = [STATES[1] if j in leaves and k == "tick" else "" for j in range(n)]
                v[i] = "err"
                (ticks if k == "tick" else others[k]).append(v)
        for i in leaves if bad else ():
            v = list(blank)
            v[i] = "bad"
            ticks.append(v)
    keep = [[] for _ in range(n)]
    inps = [keep]
    for i in range(n):
        for val in input_values(tr, i):
            v = [[] for _ in range(n)]
            v[i] = [val]
            inps.append(v)
    tr = dict(tr)
    tr["scrs"] = dict(others, tick=ticks)
    tr["inps"] = inps
    tr["ks"] = KINDS
    timed = any(t in ("WAIT", "THR", "THRS") for t in tr["type"])
    tr["dts"] = [0, 1, 3] if timed else [0]
    tr["tmax"] = 7 if timed else 0
    return tr


# ---------------------------------------------------------------- real trees

_classes = {}


def classes():
    if _classes:
        return _classes
    boot.load()
    from ros_bt_py.nodes import sequence, fallback, parallel, decorators, list as list_
    from ros_bt_py.ros_nodes import enum_switch, throttle, wait
    from ros_bt_py.node import Leaf, Decorator, define_bt_node
    from ros_bt_py.node_config import NodeConfig
    from ros_bt_py.helpers import BTNodeState
    from ros_bt_py.exceptions import BehaviorTreeException
    from ros_bt_py.vendor.result import Ok, Err
    from ros_bt_py_interfaces.msg import UtilityBounds

    def state(name):
        return name

    @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))
    class ScriptLeaf(Leaf):
        """A leaf whose code answers what the current operation's script says."""

        ctx = None
        idx = 0
        paused = False
        cannot = False

        def _answer(self, k, ok):
            c = self.ctx
            c.log.append([self.idx + 1, k])
            w = c.op["scr"][self.idx]
            own = k == c.op["k"]
            if w in ("xs", "xf"):
                if not own:
                    return Err(BehaviorTreeException("scripted"))
                return Ok(state("SUCCEEDED" if w == "xs" else "FAILED"))
            if w == "" or not own:
                return Ok(state(ok))
            if w == "err":
                return Err(BehaviorTreeException("scripted"))
            if w == "bad":
                return Ok(state("IDLE" if k == "tick" else "RUNNING"))
            return Ok(state(w))

        def _do_setup(self):
            return self._answer("setup", "IDLE")

        def _do_tick(self):
            return self._answer("tick", "SUCCEEDED")

        def _do_untick(self):
            return self._answer("untick", "PAUSED" if self.paused else "IDLE")

        def _do_reset(self):
            return self._answer("reset", "IDLE")

        def _do_shutdown(self):
            return self._answer("shutdown", "SHUTDOWN")

        def _do_calculate_utility(self):
            if self.cannot:
                return Ok(UtilityBounds(can_execute=False))
            return super()._do_calculate_utility()

    @define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=1))
    class ScriptDecorator(Decorator):
        """A decorator that forwards everything, with scripted errors of its own."""

        ctx = None
        idx = 0

        def _fail(self, k):
            self.ctx.log.append([self.idx + 1, k])
            return self.ctx.op["scr"][self.idx] == "err"

        def _forward(self, k, none):
            if self._fail(k):
                return Err(BehaviorTreeException("scripted"))
            for child in self.children:
                return getattr(child, k)()
            return Ok(state(none))

        def _do_setup(self):
            return self._forward("setup", "IDLE")

        def _do_tick(self):
            return self._forward("tick", "SUCCEEDED")

        def _do_untick(self):
            return self._forward("untick", "IDLE")

        def _do_reset(self):
            return self._forward("reset", "IDLE")

        def _do_shutdown(self):
            bad = self._fail("shutdown") and self.ctx.op["k"] == "shutdown"
            return Err(BehaviorTreeException("scripted")) if bad else Ok(state("SHUTDOWN"))

    d = decorators
    _classes.update(
        SEQ=sequence.Sequence, MSEQ=sequence.MemorySequence, FB=fallback.Fallback,
        MFB=fallback.MemoryFallback, PAR=parallel.Parallel, PFT=parallel.ParallelFailureTolerance,
        NSW=fallback.NameSwitch, ESW=enum_switch.EnumSwitch, IGNF=d.IgnoreFailure,
        IGNR=d.IgnoreRunning, IGNS=d.IgnoreSuccess, UNTIL=d.UntilSuccess, INV=d.Inverter,
        RETRY=d.Retry, REPEAT=d.Repeat, RNAR=d.RepeatNoAutoReset, RALW=d.RepeatAlways,
        RUF=d.RepeatUntilFail, RIF=d.RepeatIfFail, OPT=d.Optional, WATCH=d.Watch,
        ITER=list_.IterateList, THR=throttle.Throttle, THRS=throttle.ThrottleSuccess,
        WAIT=wait.Wait, LEAF=ScriptLeaf, SDEC=ScriptDecorator,
    )
    return _classes


def sv(state):
    return str(getattr(state, "value", state))


class Tree:
    """A real tree of ros_bt_py nodes built from an abstract one."""

    def __init__(self, tr, now=0):
        from ros_bt_py.data_types import (IntType, FloatType, BoolType, StringType, GenericType, ListType,
                                          RosComponentType, ReferenceListType, GENERIC_TYPE_MAP)
        import lifecycle_msgs.msg

        cl = classes()
        self.tr = tr
        self.op = None
        self.log = []
        self.ros = boot.make_ros_node()
        self.ros.nanos = int(now * 1e9)
        self.nodes = []
        self.live = [False] * tr["n"]
        names = {0: "root"}
        for i in range(tr["n"]):
            for pos, k in enumerate(tr["kids"][i]):
                names[k - 1] = {"NSW": f"k{pos + 1}", "ESW": "x." + ESW_NAMES[pos + 1] if pos < 5 else f"z{pos}"}.get(
                    tr["type"][i], f"n{k}")
        static = lambda t, v, **kw: t(allow_dynamic=False, value=v, **kw)
        for i in range(tr["n"]):
            ty, p1, p2 = tr["type"][i], tr["p1"][i], tr["p2"][i]
            ins = {}
            if ty == "PAR":
                ins = {"needed_successes": static(IntType, p1, min_value=1)}
            elif ty == "PFT":
                ins = {"needed_successes": static(IntType, p1, min_value=1),
                       "tolerate_failures": static(IntType, p2, min_value=0)}
            elif ty == "IGNR":
                ins = {"running_is_success": static(BoolType, bool(p1))}
            elif ty == "RETRY":
                ins = {"num_retries": static(IntType, p1, min_value=0)}
            elif ty in ("REPEAT", "RNAR"):
                ins = {"num_repeats": static(IntType, p1, min_value=1)}
            elif ty == "THR":
                ins = {"tick_interval": static(FloatType, float(p1), min_value=0.0)}
            elif ty == "THRS":
                ins = {"tick_interval": static(FloatType, float(p1))}
            elif ty == "WAIT":
                ins = {"seconds_to_wait": static(FloatType, float(p1), min_value=0.0)}
            elif ty == "ITER":
                ins = {"item_type": GenericType(value=GENERIC_TYPE_MAP[int]),
                       "list": ReferenceListType(reference="item_type", is_static=False)}
                ins["list"].set_type_map(ins).unwrap()
            elif ty == "ESW":
                ins = {"ros_message_type": RosComponentType(value=lifecycle_msgs.msg.State)}
            node = cl[ty](name=names[i], new_inputs=ins, ros_node=self.ros)
            if ty in SCRIPTED:
                node.ctx, node.idx = self, i
            if ty == "LEAF":
                node.paused, node.cannot = p1 == 1, p2 == 1
            self.nodes.append(node)
        for i in range(tr["n"]):
            for k in tr["kids"][i]:
                self.nodes[i].add_child(self.nodes[k - 1]).unwrap()

    INKEY = {"NSW": "name", "ESW": "case", "WATCH": "watch", "RNAR": "reset", "ITER": "list"}

    def encode(self, i, v):
        ty = self.tr["type"][i]
        if ty == "NSW":
            return f"k{v[0]}"
        if ty == "ESW":
            return {-1: 99, 5: 10}.get(v[0], v[0])
        if ty == "WATCH":
            return f"w{v[0]}"
        if ty == "RNAR":
            return bool(v[0])
        return list(v)

    def apply(self, op):
        """Perform one root operation; returns the observation."""
        self.op = op
        self.log = []
        self.ros.nanos = int(op["now"] * 1e9)
        for i, v in enumerate(op["inp"]):
            if v:
                key = self.INKEY[self.tr["type"][i]]
                self.nodes[i].node_config.inputs[key].set_value(self.encode(i, v[0])).unwrap()
        try:
            res = getattr(self.nodes[0], op["k"])()
            r = sv(res.unwrap()) if res.is_ok() else "ERR"
        except Exception as e:  # an exception escaping from node code is never right
            r = f"EXC {type(e).__name__}: {e}"
        return self.project(r)

    def project(self, r):
        outs = []
        for i, n in enumerate(self.nodes):
            # before its first setup a slot holds a default of no interest
            self.live[i] |= sv(n.state) not in ("UNINITIALIZED", "SHUTDOWN")
            if self.tr["type"][i] == "ITER" and self.live[i]:
                v = n.node_config.outputs["list_item"].get_value()
                outs.append([v.unwrap()] if v.is_ok() else [])
            else:
                outs.append([])
        upd = [self.tr["type"][i] in ("WATCH", "ITER") and
               bool(n.inputs.any_updated(self.INKEY[self.tr["type"][i]]).unwrap())
               for i, n in enumerate(self.nodes)]
        return {"r": r, "st": [sv(n.state) for n in self.nodes], "out": outs, "upd": upd,
                "log": [list(x) for x in self.log]}


def canon(log):
    """The order of unticks (resets, ...) among siblings is not observable behaviour we judge."""
    out = []
    for _, g in itertools.groupby(log, key=lambda e: e[1]):
        g = [list(x) for x in g]
        out += g if g[0][1] == "tick" else sorted(g)
    return out


# ---------------------------------------------------------------- random trees and histories

ALL_DECO = ["IGNF", "IGNR", "IGNS", "UNTIL", "INV", "RETRY", "REPEAT", "RNAR", "RALW", "RUF", "RIF", "OPT",
            "WATCH", "ITER", "THR", "THRS", "SDEC"]


def random_tree(rng, types, depth=3, leaf_types=("LEAF",), max_kids=3):
    def params(ty, n):
        if ty == "PAR":
            return (rng.randint(1, max(1, n)), 0)
        if ty == "PFT":
            return (rng.randint(1, max(1, n)), rng.randint(0, 2))
        if ty == "IGNR":
            return (rng.randint(0, 1), 0)
        if ty == "RETRY":
            return (rng.randint(0, 3), 0)
        if ty in ("REPEAT", "RNAR"):
            return (rng.randint(1, 3), 0)
        if ty in ("THR", "THRS", "WAIT"):
            return (rng.randint(0, 4), 0)
        if ty == "LEAF":
            return (int(rng.random() < 0.3), int(rng.random() < 0.15))
        return (0, 0)

    def rec(d, top=False, can=False):
        # can: below an OPT and a flow node (what the flow node reports then is not judged here)
        if d == 0 or (not top and rng.random() < 0.3):
            ty = rng.choice(leaf_types)
            return T(ty, p1=params(ty, 0)[0], p2=params(ty, 0)[1] if not can else 0)
        ty = rng.choice(types)
        if ty in FLOW:
            n = rng.choice([0, 1, 2, 2, 3, 3][: 6]) if not top else rng.randint(2, max_kids)
            n = min(n, max_kids)
            kids = [rec(d - 1, can=can is not False) for _ in range(n)]
        else:
            kids = [rec(d - 1, can=None if ty == "OPT" and not can else can)] if rng.random() < 0.95 else []
        p = params(ty, len(kids))
        return T(ty, *kids, p1=p[0], p2=p[1])

    return flatten(rec(depth, True))


def random_value(rng, tr, i):
    if tr["type"][i] == "ITER":
        return [rng.choice([1, 1, 2, 3]) for _ in range(rng.randint(0, 5))]
    vals = input_values(tr, i)
    return rng.choice(vals) if vals else None


def random_op(rng, tr, k, now, errors=0.0, inputs=0.4, bias=None):
    n = tr["n"]
    scr = [""] * n
    for i in range(n):
        if tr["type"][i] == "LEAF":
            if k == "tick":
                scr[i] = rng.choice(bias or STATES)
            if rng.random() < errors:
                scr[i] = rng.choice(["err", "xs", "xf"] if k == "tick" else ["err"])
        elif tr["type"][i] == "SDEC" and rng.random() < errors:
            scr[i] = "err"
    inp = [[] for _ in range(n)]
    for i in range(n):
        if tr["type"][i] in HASINPUT and rng.random() < inputs:
            inp[i] = [random_value(rng, tr, i)]
    return {"k": k, "scr": scr, "inp": inp, "now": now}


def all_inputs(rng, tr):
    inp = [[] for _ in range(tr["n"])]
    for i in range(tr["n"]):
        if tr["type"][i] in HASINPUT:
            inp[i] = [random_value(rng, tr, i)]
    return inp


def random_history(rng, tr, length, errors=0.0, start=None):
    ops = []
    now = 0
    ops.append(random_op(rng, tr, "setup", now, inputs=0))
    first = random_op(rng, tr, "tick", now, errors)
    first["inp"] = all_inputs(rng, tr)
    ops.append(first)
    while len(ops) < length:
        now += rng.choice([0, 0, 1, 1, 2, 5])
        k = rng.choices(KINDS, weights=[3 if errors else 1, 75, 10, 6, 3 if errors else 1])[0]
        ops.append(random_op(rng, tr, k, now, errors))
        if k == "shutdown" and rng.random() < 0.9:
            ops.append(random_op(rng, tr, "setup", now, inputs=0))
            o = random_op(rng, tr, "tick", now, errors)
            o["inp"] = all_inputs(rng, tr)
            ops.append(o)
    return ops
