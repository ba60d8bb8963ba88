"""Recording of node calls: what each node is asked, what its own code answers, what the call replies."""

KINDS = ["setup", "tick", "untick", "reset", "shutdown"]


def sv(state):
    return str(getattr(state, "value", state))


def reply(res):
    if res.is_ok():
        return sv(res.unwrap())
    return "ERR"


class Recorder:
    """Wraps the calls of every node of a tree (as instance attributes); ev collects events.

    The state of all nodes is attached to returns if snapshots is set.
    """

    def __init__(self, nodes, snapshots=False):
        self.nodes = list(nodes)
        self.num = {id(n): i + 1 for i, n in enumerate(self.nodes)}
        self.ev = []
        self.snapshots = snapshots
        for n in self.nodes:
            for k in KINDS:
                self._wrap(n, k)

    def states(self):
        return [sv(n.state) for n in self.nodes]

    def _wrap(self, node, k):
        i = self.num[id(node)]
        call, code = getattr(node, k), getattr(node, "_do_" + k)
        ev = self.ev

        def outer():
            e = {"e": "call", "i": i, "k": k, "st": sv(node.state),
                 "full": all(c.has_value() for c in node.node_config.inputs.values())}
            ev.append(e)
            try:
                res = call()
                r = reply(res)
            except Exception as x:
                r = "EXC " + type(x).__name__
                ev.append({"e": "ret", "i": i, "k": k, "r": r, "st": sv(node.state)})
                raise
            e = {"e": "ret", "i": i, "k": k, "r": r, "st": sv(node.state)}
            if self.snapshots:
                e["all"] = self.states()
            ev.append(e)
            return res

        def inner():
            ev.append({"e": "enter", "i": i, "k": k})
            res = code()
            ev.append({"e": "code", "i": i, "k": k, "r": reply(res)})
            return res

        setattr(node, k, outer)
        setattr(node, "_do_" + k, inner)
