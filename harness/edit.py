"""The real edit manager as driven by the editing checks."""

import contextlib
import copy
import json
import os
import re
import signal
import uuid

import boot

boot.load()

import editnodes  # noqa: E402,F401
from ros_bt_py.node import Node  # noqa: E402
from ros_bt_py.tree_edit_manager import TreeEditManager  # noqa: E402
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeIO, NodeStructure, TreeStructure, Wiring  # noqa: E402
from ros_bt_py_interfaces.srv import (  # noqa: E402
    AddNode, AddNodeAtIndex, ChangeTreeName, ClearTree, GenerateSubtree, GetSubtree, LoadTree, LoadTreeFromPath, MorphNode, MoveNode,
    ReloadTree, RemoveNode, ReplaceNode, SetOptions, WireNodeData)

ZERO = uuid.UUID(int=0)
ROS = None


def ros():
    global ROS
    if ROS is None:
        ROS = boot.make_ros_node()
        ROS.create_rate = lambda *a, **k: type("R", (), {"sleep": lambda s: None, "destroy": lambda s: None})()
        ROS.create_timer = lambda *a, **k: None
    return ROS


def canon(m, drop=()):
    """A message as a string."""
    def rec(x):
        if hasattr(x, "get_fields_and_field_types"):
            return {f: rec(getattr(x, f)) for f in x.get_fields_and_field_types() if f not in drop}
        if hasattr(x, "tolist"):
            return x.tolist()
        if isinstance(x, (list, tuple)) or type(x).__name__ == "array":
            return [rec(y) for y in x]
        return x
    # a limit of a float type is written 0 or 0.0
    return LIMIT.sub(r"\1", json.dumps(rec(m), sort_keys=True))


LIMIT = re.compile(r'(m(?:in|ax)_value\\*": \\*"-?\d+)\.0(?=\\*")')
FLAGS = ("allow_dynamic", "allow_static", "is_static")


def ioinfo(key, container):
    """<<key, kind, type, static>> of a slot: what decides about wires."""
    static = bool(container.is_static)
    rt = container.get_runtime_type()
    m = rt.serialize_type()
    if type(rt).__name__.startswith("Reference"):
        return [key, "?", f"{key} unresolved", static]
    return [key, f"{m.type_identifier} {list(m.value_type_identifier)} {m.ros_msg_type}", canon(m, FLAGS + ("reference_target",)), static]


class Pool:
    """Configurations: node messages that can be instantiated, interned by what they publish."""

    def __init__(self):
        self.ids = {}
        self.table = []
        self.msgs = []

    @staticmethod
    def key(msg):
        m = copy.copy(msg)
        m.node_id = m.name = m.tree_ref = ""
        m.child_ids = []
        return canon(m)

    def known(self, msg):
        """Index of a published node; what was never instantiated here gets the index 0."""
        return self.ids.get(self.key(msg), 0)

    def intern(self, msg):
        """Index of what a node message describes, 0 if it describes no node."""
        m = copy.deepcopy(msg)
        m.node_id = str(uuid.uuid4())
        m.name = "x"
        try:
            r = Node.from_msg(m, ros())
        except Exception:
            return 0
        if r.is_err():
            return 0
        n = r.unwrap()
        out = n.to_structure_msg()
        k = self.key(out)
        if k not in self.ids:
            self.table.append({
                "cls": out.module + "." + out.node_class, "max": out.max_children,
                "opts": [[i.key, optval(i)] for i in out.inputs],
                "ins": [ioinfo(x, c) for x, c in n.node_config.inputs.items()],
                "outs": [ioinfo(x, c) for x, c in n.node_config.outputs.items()]})
            self.msgs.append(out)
            self.ids[k] = len(self.table)
        return self.ids[k]

    def merged(self, cfg, inputs):
        """Index of a configuration with other values of some inputs."""
        m = copy.deepcopy(self.msgs[cfg - 1])
        given = {i.key: i for i in inputs}
        m.inputs = [given.pop(i.key, i) for i in m.inputs] + list(given.values())
        return self.intern(m)


def optval(io):
    return canon(io, ("key",))


class Hang(BaseException):
    pass


NOWHERE = open(os.devnull, "w")


@contextlib.contextmanager
def limit(seconds):
    """Ends what takes too long."""
    def ring(*_):
        raise Hang
    old = signal.signal(signal.SIGALRM, ring)
    signal.alarm(seconds)
    try:
        yield
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


class Editor:
    """A manager, with node ids mapped to small numbers."""

    def __init__(self, pool, cls=TreeEditManager, **kw):
        self.pool = pool
        self.published = None
        self.m = cls(ros_node=ros(), publish_tree_structure_callback=self.take, **kw)
        self.num = {ZERO: 0}
        self.uid = {0: ZERO}

    def take(self, msg):
        self.published = copy.deepcopy(msg)

    # -------- ids
    def n(self, u):
        u = uuid.UUID(u) if isinstance(u, str) and u else u or ZERO
        if u not in self.num:
            k = max(max(self.uid), 100) + 1
            self.num[u], self.uid[k] = k, u
        return self.num[u]

    def bind(self, k, u):
        u = uuid.UUID(u)
        old = self.uid.get(k)
        if old is not None:
            self.num.pop(old, None)
        self.uid[k], self.num[u] = u, k

    def u(self, k):
        if k == -1:
            return "no id"
        if k not in self.uid:
            x = uuid.uuid4()
            self.uid[k], self.num[x] = x, k
        return str(self.uid[k])

    def wire(self, w):
        return Wiring(source=NodeDataLocation(node_id=self.u(w[0]), data_key=w[1]), target=NodeDataLocation(node_id=self.u(w[2]), data_key=w[3]))

    def node(self, cfg, name="", kids=(), id=0, bad=None):
        m = copy.deepcopy(self.pool.msgs[cfg - 1]) if cfg else copy.deepcopy(bad or NodeStructure(module="editnodes", node_class="Nothing"))
        m.name, m.child_ids, m.node_id = name, [self.u(k) for k in kids], self.u(id) if id else ""
        return m

    def tree(self, m):
        t = TreeStructure(name=m["name"], path=m["path"], tick_frequency_hz=10.0)
        t.nodes = [self.node(x["cfg"], x["name"], x["kids"], x["id"], x.get("bad")) for x in m["nodes"]]
        t.data_wirings = [self.wire(w) for w in m["wires"]]
        t.public_inputs = [NodeDataLocation(node_id=self.u(a), data_key=k) for a, k in m["pin"]]
        t.public_outputs = [NodeDataLocation(node_id=self.u(a), data_key=k) for a, k in m["pout"]]
        return t

    # -------- requests
    def request(self, op):
        k = op["k"]
        m = self.m
        if k == "add":
            node = self.node(op["cfg"], op["name"], op["kids"], bad=op.get("bad"))
            if op["idx"] == -1 and op.get("plain"):
                return m.add_node, AddNode.Request(parent_node_id=self.u(op["parent"]), node=node), AddNode.Response()
            return m.add_node_at_index, AddNodeAtIndex.Request(parent_node_id=self.u(op["parent"]), node=node,
                                                               new_child_index=op["idx"]), AddNodeAtIndex.Response()
        if k == "remove":
            return m.remove_node, RemoveNode.Request(node_id=self.u(op["id"]), remove_children=op["all"]), RemoveNode.Response()
        if k == "move":
            return m.move_node, MoveNode.Request(node_id=self.u(op["id"]), parent_node_id=self.u(op["parent"]),
                                                 new_child_index=op["idx"]), MoveNode.Response()
        if k == "replace":
            return m.replace_node, ReplaceNode.Request(old_node_id=self.u(op["old"]), new_node_id=self.u(op["new"])), ReplaceNode.Response()
        if k == "morph":
            return m.morph_node, MorphNode.Request(node_id=self.u(op["id"]), new_node=self.node(op["cfg"], op["name"], bad=op.get("bad"))), MorphNode.Response()
        if k == "setopts":
            return m.set_options, SetOptions.Request(node_id=self.u(op["id"]), rename_node=op["rename"], new_name=op["name"],
                                                     inputs=op["msgs"] if "msgs" in op else [self.opt(o) for o in op["opts"]]), SetOptions.Response()
        if k == "rename":
            return m.change_tree_name, ChangeTreeName.Request(name=op["name"]), ChangeTreeName.Response()
        if k in ("wire", "unwire"):
            f = m.wire_data if k == "wire" else m.unwire_data
            return f, WireNodeData.Request(wirings=[self.wire(w) for w in op["wires"]], ignore_failure=op["ignore"]), WireNodeData.Response()
        if k == "clear":
            return m.clear, ClearTree.Request(), ClearTree.Response()
        if k == "load":
            return m.load_tree, LoadTree.Request(tree=self.tree(op["tree"])), LoadTree.Response()
        if k == "reload":
            return m.reload_tree, ReloadTree.Request(), ReloadTree.Response()
        if k == "bad":
            if op["how"] == "path":
                return m.load_tree_from_path, LoadTreeFromPath.Request(path=op["path"]), LoadTreeFromPath.Response()
            return m.load_tree, LoadTree.Request(tree=op["msg"]), LoadTree.Response()
        if k == "look":
            if op["how"] == "get":
                return m.get_subtree, GetSubtree.Request(root_id=self.u(op["id"])), GetSubtree.Response()
            return m.generate_subtree, GenerateSubtree.Request(node_ids=[self.u(op["id"])]), GenerateSubtree.Response()
        raise ValueError(k)

    def opt(self, o):
        """A [key, value] of a configuration of the pool as a message."""
        for m in self.pool.msgs:
            for i in m.inputs:
                if optval(i) == o[1]:
                    i = copy.deepcopy(i)
                    i.key = o[0]
                    return i
        raise KeyError(o)

    def do(self, op):
        f, req, resp = self.request(op)
        before = set(self.m.nodes) if op["k"] == "add" else None
        try:
            with contextlib.redirect_stdout(NOWHERE), limit(10):
                r = f(req, resp)
        except Hang:
            return "does not answer"
        except Exception as e:
            return "raises " + type(e).__name__ + ": " + str(e)[:120]
        if op["k"] == "add" and r.success:
            new = set(self.m.nodes) - before
            if len(new) == 1:
                self.bind(op["new"], str(next(iter(new))))
            if hasattr(r, "node_id") and new and r.node_id not in [str(x) for x in new]:
                return "misnamed"
        return "ok" if r.success else "fail"

    # -------- observation
    def look(self):
        if self.published is None:
            self.m.publish_structure()
        own = [t for t in self.published.tree_structures if t.tree_id == str(ZERO)]
        s = own[-1] if own else TreeStructure(name="nothing published")
        return {
            "nodes": [{"id": self.n(x.node_id), "cfg": self.pool.known(x), "name": x.name, "kids": [self.n(c) for c in x.child_ids]} for x in s.nodes],
            "wires": [[self.n(w.source.node_id), w.source.data_key, self.n(w.target.node_id), w.target.data_key] for w in s.data_wirings],
            "name": s.name, "path": s.path, "root": self.n(s.root_id),
            "pin": [[self.n(x.node_id), x.data_key] for x in s.public_inputs],
            "pout": [[self.n(x.node_id), x.data_key] for x in s.public_outputs],
            "links": sorted([{"id": self.n(i), "parent": self.n(x.parent.node_id) if x.parent is not None else 0,
                              "kids": [self.n(c.node_id) for c in x.children]} for i, x in self.m.nodes.items()], key=lambda l: l["id"]),
        }


def static(key, cls, value, **kw):
    c = cls(allow_dynamic=False, **kw)
    c.set_value(value).unwrap()
    return NodeIO(key=key, type=c.serialize_type(), serialized_value=c.serialize_value())


def plain_pool():
    """The configurations of the model: 1 Flow, 2 Deco, 3 Pair, 4.. Items of kind int, str, float with n 0 and 1, 10 Mix."""
    from ros_bt_py.data_types import IntType, StringType
    p = Pool()
    for c in ("Flow", "Deco", "Pair"):
        p.intern(NodeStructure(module="editnodes", node_class=c))
    for k in ("int", "str", "float"):
        for n in (0, 1):
            p.intern(NodeStructure(module="editnodes", node_class="Item",
                                   inputs=[static("kind", StringType, k), static("n", IntType, n)]))
    p.intern(NodeStructure(module="editnodes", node_class="Mix"))
    assert len(p.table) == 10, len(p.table)
    return p
