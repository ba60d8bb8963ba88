"""Covering walks over a state graph printed by TLC, executed on the real code."""

import json
import random
from collections import deque


class Graph:
    """States are interned; an edge is (operation, expected observation, target)."""

    def __init__(self):
        self.ids = {}
        self.out = []
        self.init = []

    def state(self, key):
        k = json.dumps(key, separators=(",", ":"), sort_keys=True)
        i = self.ids.get(k)
        if i is None:
            i = self.ids[k] = len(self.out)
            self.out.append([])
        return i

    def edge(self, src, op, obs, dst):
        self.out[src].append((op, obs, dst))

    @property
    def edges(self):
        return sum(len(o) for o in self.out)


def cover(graph, init, new, step, rng, max_len=120, budget=None, clock=None, mine=None):
    """Walk until every edge reachable from init was taken (or the budget of steps is used up).

    new() -> real object; step(obj, op, obs) -> None or a description of the disagreement.
    Returns (steps, edges covered, walks, failure) with failure = (ops taken, description).
    """
    out = graph.out
    left = [[e for e in range(len(o)) if mine is None or mine(s, e)] for s, o in enumerate(out)]
    for l in left:
        rng.shuffle(l)
    todo = sum(map(len, left))
    total = todo
    steps = walks = 0
    dead = set()  # states from which no uncovered edge is reachable within one walk

    def path_to_uncovered(s):
        seen = {s: None}
        q = deque([s])
        while q:
            u = q.popleft()
            if left[u]:
                p = []
                while seen[u] is not None:
                    v, e = seen[u]
                    p.append(e)
                    u = v
                return p[::-1]
            for e, (_, _, d) in enumerate(out[u]):
                if d not in seen and d not in dead:
                    seen[d] = (u, e)
                    q.append(d)
        dead.update(seen)
        return None

    while todo:
        if init in dead:
            break
        obj = new()
        walks += 1
        s = init
        ops = []
        plan = []
        while len(ops) < max_len or plan:
            if budget is not None and steps >= budget:
                return steps, total - todo, walks, None
            if clock is not None and clock():
                return steps, total - todo, walks, None
            if not plan:
                if left[s]:
                    plan = [left[s][-1]]
                else:
                    plan = path_to_uncovered(s)
                    if not plan:
                        break
            e = plan.pop(0)
            op, obs, d = out[s][e]
            if e in left[s]:
                left[s].remove(e)
                todo -= 1
            ops.append(op)
            steps += 1
            bad = step(obj, op, obs)
            if bad:
                return steps, total - todo, walks, (ops, bad)
            s = d
        if s == init and not plan and not ops:
            break
    return steps, total - todo, walks, None
