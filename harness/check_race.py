"""C13: commands, edits and the tick loop in several threads.

1. TLC explores every interleaving of the protocol (ConcurrentMC) and shows that the rules of BTConcurrent hold in it.
2. The real manager is run under a scheduler that decides at every line of it which thread goes on: pairs and triples of commands and
   edits in every tree state, with everything the tree can answer. What is observed is judged by TLC (RaceTrace).
"""

import contextlib
import itertools
import json
import os
import random
import tempfile
import time

import actnodes
import boot
import check_edit as CE
import check_exec as CX
import edit as E
import execute as X
import sched
import tlc
from pool import Pool
from common import SEED, THOROUGH
import ros_bt_py.debug_manager
import ros_bt_py.subtree_manager
import ros_bt_py.tree_edit_manager
import ros_bt_py.tree_exec_manager
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py_interfaces.srv import ControlTreeExecution as CT

FILES = {ros_bt_py.tree_exec_manager.__file__}
COMMANDS = ("once", "always", "until", "stop", "reset", "shutdown", "edit")
STARTS = {"EDITABLE": [], "IDLE": ["once", "stop"], "WAITING_FOR_TICK": ["once"], "ERROR": ["broken"], "TICKING": ["always"], "UNTIL": ["until"]}


class Race:
    """One execution."""

    def __init__(self, pool, start, callers, ticks, unticks, preempt, seed, turns=3):
        rng = random.Random(seed)
        self.ev = []
        self.quiet = True
        self.turns = turns
        s = self.s = sched.Sched(FILES, preempt, rng)
        sched.Sched.now = s
        s.count = 0
        s.uncaught = None
        s.note = self.note
        ros = boot.make_ros_node()
        race = self

        class Rate:
            def sleep(self):
                if not race.m.state == "STOP_REQUESTED":
                    race.asleep += 1
                    try:
                        s.wait(lambda: race.turns > 0 or race.stopping())
                    finally:
                        race.asleep -= 1
                    race.turns -= 1

            def destroy(self):
                pass
        self.asleep = 0
        ros.create_rate = lambda *a, **k: Rate()
        ros.create_timer = lambda *a, **k: None
        e = self.e = E.Editor.__new__(E.Editor)
        e.pool, e.published, e.num, e.uid = pool, None, {E.ZERO: 0}, {0: E.ZERO}
        actnodes.PLAN.clear()
        actnodes.HOOKS.clear()
        self.m = e.m = TreeEditManager(ros_node=ros, publish_tree_structure_callback=e.take)
        self.state = self.m.state
        r = e.request({"k": "load", "tree": {"nodes": [CE.node(1, CX.ACT, [5]), CE.node(5, CE.FLOW)], "wires": [], **CX.QUIET}})
        if not r[0](r[1], r[2]).success:
            raise RuntimeError("the tree cannot be loaded")
        s.sample = self.sample
        # the state to start from
        files, s.files, s.preempt = s.files, set(), {}
        self.sequential([lambda c=c: self.prepare(c) for c in STARTS[start]])
        if start in ("TICKING", "UNTIL"):
            self.turns = turns
        s.files, s.preempt, s.steps = files, preempt, 0
        self.first = self.state = self.m.state
        # the execution
        ticks, unticks = list(ticks), list(unticks)
        self.tick_plan, self.untick_plan = ticks, unticks
        actnodes.PLAN["tick"] = lambda: ticks.pop(0) if len(ticks) > 1 else ticks[0]
        actnodes.PLAN["untick"] = lambda: unticks.pop(0) if len(unticks) > 1 else unticks[0]
        actnodes.HOOKS["make"] = self.acting
        actnodes.HOOKS["op"] = self.op
        self.quiet = False
        s.resume()
        for i, c in enumerate(callers):
            s.spawn(i + 1, lambda i=i, c=c: self.caller(i + 1, c))
        self.finished = s.run()
        self.why = s.over
        self.sample()
        n = self.asleep
        self.quiet = True
        left = self.m.state
        # what is left can be shut down
        self.turns = 0
        actnodes.PLAN.clear()
        s.files, s.preempt, s.limit = set(), {}, s.steps + 20000
        if self.why == "rest" and self.finished:
            self.sequential([lambda: self.prepare("shutdown")] * 2)
            left = self.m.state
        self.ev.append({"e": "fin", "asleep": n, "left": left if self.why == "rest" and self.finished else "EDITABLE"})
        s.kill()
        sched.Sched.now = None

    def stopping(self):
        return self.m.state == "STOP_REQUESTED"

    def sequential(self, fs):
        for f in fs:
            self.s.resume()
            self.s.spawn(0, f)
            self.s.run()

    def prepare(self, c):
        self.turns = 0
        actnodes.PLAN["tick"] = lambda: "ERR" if c == "broken" else "RUNNING"
        self.m.control_execution(CT.Request(command=X.CODE["once" if c == "broken" else c]), CT.Response())

    def note(self, e):
        self.sample()
        if not self.quiet:
            self.ev.append(e)

    def sample(self):
        if self.s.hold:
            return
        self.s.hold = True
        try:
            now = self.m.state
        except sched.Busy:
            return
        finally:
            self.s.hold = False
        if now != self.state:
            self.state = now
            if not self.quiet:
                self.ev.append({"e": "state", "s": now})

    def tid(self):
        me = self.s.me()
        return me.tid if me else 0

    def acting(self):
        if not self.quiet:
            self.note({"e": "act", "t": self.tid()})
            self.s.point()

    def op(self, node, k, call):
        """An operation of a root."""
        if self.quiet or node.parent is not None or self.s.me() is None:
            return call()
        t = self.tid()
        self.note({"e": "begin", "t": t, "k": k})
        self.s.point()
        r = "RAISE"
        try:
            a = call()
            r = str(a.unwrap()) if a.is_ok() else "ERR"
            return a
        finally:
            if not self.s.over:
                self.s.point()
                self.note({"e": "end", "t": t, "k": k, "r": r})
                self.s.point()

    def caller(self, t, c):
        self.note({"e": "call", "t": t, "c": c})
        self.s.point()
        try:
            if c == "edit":
                n = [CE.node(11, CX.ACT, [12]), CE.node(12, CX.ACT, [13]), CE.node(13, CX.ACT)]
                f, req, resp = self.e.request({"k": "load", "tree": {"nodes": n, "wires": [], **CX.QUIET}})
                r = f(req, resp)
            else:
                r = self.m.control_execution(CT.Request(command=X.CODE[c]), CT.Response())
            ok = bool(r.success)
        except Exception as x:
            ok = False
            self.ev.append({"e": "crash", "t": t, "x": repr(x)[:200]})
        self.s.point()
        self.note({"e": "ret", "t": t, "c": c, "ok": ok})


def scenarios():
    ticks = (["RUNNING"], ["SUCCEEDED"], ["RUNNING", "ERR"], ["RUNNING", "RAISE"], ["RUNNING", "FAILED"], ["ERR"])
    for st in STARTS:
        for a, b in itertools.combinations_with_replacement(COMMANDS, 2):
            for t in ticks:
                if st in ("EDITABLE", "IDLE", "WAITING_FOR_TICK", "ERROR") and not {a, b} & {"once", "always", "until"} and t is not ticks[0]:
                    continue
                yield st, (a, b), t, ["IDLE"]
            if {a, b} & {"stop", "shutdown"} and st in ("TICKING", "UNTIL", "WAITING_FOR_TICK"):
                yield st, (a, b), ["RUNNING"], ["ERR", "IDLE"]
    for st in STARTS:
        for a, b, c in itertools.combinations_with_replacement(COMMANDS, 3):
            if len({a, b, c}) == 3:
                yield st, (a, b, c), ["RUNNING", "SUCCEEDED"], ["IDLE"]


def work(args):
    part, parts, seed, budget, runs, only = args
    rng = random.Random(seed * 100 + part)
    pool = CX.pool()
    todo = [s for i, s in enumerate(s for s in scenarios() if only is None or only in s[1]) if i % parts == part]
    end = time.time() + budget
    seen, n, skipped, sizes = {}, 0, 0, {}
    with contextlib.redirect_stdout(E.NOWHERE):
        for rnd in range(runs):
            rng.shuffle(todo)
            for sc in todo:
                if time.time() > end:
                    break
                key = json.dumps(sc)
                size = sizes.get(key, 150)
                k = rng.choice([0, 1, 1, 1, 2, 2, 3]) if rnd else 0
                preempt = {rng.randrange(size): 1 for _ in range(k)}
                sd = rng.randrange(1 << 30)
                r = Race(pool, *sc, preempt, sd)
                n += 1
                sizes[key] = max(20, r.s.steps if r.why == "rest" else size)
                if not r.finished:
                    skipped += 1
                    continue
                x = json.dumps([r.first, r.ev])
                if x not in seen:
                    seen[x] = {"scenario": sc, "preempt": sorted(preempt), "seed": sd, "why": r.why, "uncaught": r.s.uncaught}
    return seen, n, skipped, len(todo)


def judge(traces):
    def job(chunk, at):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            f.write("[" + ",".join(chunk) + "]")
        vs = []
        res = tlc.run("RaceTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not res.ok or len(vs) != len(chunk):
            raise RuntimeError(f"RaceTrace failed:\n{res.out[-3000:]}")
        return [(at + v[0] - 1, v[1]) for v in vs if v[1]]
    size = max(1, -(-len(traces) // 8))
    return [x for r in tlc.parallel([lambda i=i: job(traces[i:i + size], i) for i in range(0, len(traces), size)]) for x in r]


ros_bt_py.tree_exec_manager.ok = lambda: True      # ROS is not shutting down
sched.install(ros_bt_py.tree_exec_manager, ros_bt_py.debug_manager, ros_bt_py.subtree_manager, ros_bt_py.tree_edit_manager)


def scan(check, budget, only=None):
    """Runs the real code and reports what TLC does not accept."""
    with Pool(8) as pl:
        outs = pl.map(work, [(i, 8, SEED, budget, 10000, only) for i in range(8)], chunksize=1)
    seen = {}
    for s, n, skipped, sc in outs:
        seen.update(s)
        check.add(schedules=n, schedules_not_controlled=skipped, scenarios=sc)
    traces = list(seen)
    check.add(traces_validated_against_impl=len(traces))
    check.sample({"scenario": seen[traces[0]], "events": json.loads(traces[0])[1][:20]})
    for i, v in judge(traces):
        w = seen[traces[i]]
        es = json.loads(traces[i])[1]
        if v[1].startswith("the tree is edited") != (check.prop == "C14"):
            continue
        check.violation(f"{w['scenario'][1]} in {w['scenario'][0]}: {v[1]} {w['why'] if w['why'] != 'rest' else ''}", {**w, "events": es[:v[0]], "verdict": v})
    check.assumptions.append("threads are switched at lines of the tree manager, at locks, waits and node operations, one to three times per execution besides forced switches")


def model(check):
    if THOROUGH:
        for w in ("control", "edit", "stop", "idle", "raise"):
            if tlc.run("ConcurrentMC", cfg="ConcurrentWeak_" + w, workers=4).ok:
                raise RuntimeError(f"the specification permits the protocol without '{w}'")
    mc = tlc.run("ConcurrentMC", cfg="ConcurrentFull" if THOROUGH else None, workers=8, heap="6g")
    if not mc.ok:
        raise RuntimeError("the specification violates its own properties:\n" + mc.violation[-4000:])
    check.add(states=mc.distinct, transitions=mc.states)


def run(check):
    model(check)
    scan(check, 35 if not THOROUGH else 550)
