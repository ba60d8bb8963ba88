"""C31: the ROS node of a tree. See BTServer.

The node's main function runs with stand-ins for what connects it to ROS: services and topics are kept by name, and topics keep what
their quality of service makes them keep. TLC explores starts and histories of requests (ServerMC); walks that cover its transitions, and
random histories, are sent to the services; TLC judges the answers, what is published, and what a new subscriber sees (ServerTrace)."""

import contextlib
import copy
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
import threading
import time
import types

import boot
import edit as E
import execute
import replay
import servernodes
import tlc
from common import SEED, THOROUGH
from pool import Pool

import rclpy
import rosidl_runtime_py
from rclpy.callback_groups import MutuallyExclusiveCallbackGroup
from rclpy.exceptions import InvalidHandle
from rclpy.qos import QoSDurabilityPolicy
from ros_bt_py.data_types import PathType
from ros_bt_py.logging_manager import LoggingManager
from ros_bt_py.tree_exec_manager import TreeExecManager
import ros_bt_py_interfaces.msg as M
import ros_bt_py_interfaces.srv as S
from std_srvs.srv import SetBool

U = E.uuid.UUID
NAME = "/BehaviorTreeNode/"
CLASS = {"L": ("servernodes", "Say"), "G": ("servernodes", "Give"), "T": ("servernodes", "Take"), "root": ("servernodes", "Main"), "S": ("ros_bt_py.ros_nodes.subtree", "Subtree")}
KIND = {c: k for k, (_, c) in CLASS.items()}
TYPES = {"add_node": S.AddNode, "add_node_at_index": S.AddNodeAtIndex, "remove_node": S.RemoveNode, "morph_node": S.MorphNode, "move_node": S.MoveNode,
         "replace_node": S.ReplaceNode, "set_options": S.SetOptions, "wire_data": S.WireNodeData, "unwire_data": S.WireNodeData, "change_tree_name": S.ChangeTreeName,
         "clear": S.ClearTree, "load_tree": S.LoadTree, "load_tree_from_path": S.LoadTreeFromPath, "reload": S.ReloadTree, "get_subtree": S.GetSubtree,
         "generate_subtree": S.GenerateSubtree, "control_tree_execution": S.ControlTreeExecution, "debug/set_publish_subtrees": SetBool,
         "debug/set_publish_data": SetBool, "debug/set_collect_node_diagnostics": SetBool, "set_log_level": S.SetLogLevel, "save_tree": S.SaveTree,
         "get_folder_structure": S.GetFolderStructure, "get_storage_folders": S.GetStorageFolders, "get_available_nodes": S.GetAvailableNodes,
         "get_package_structure": S.GetPackageStructure}
CHANNELS = {"topics": [("/a", ["p/msg/A"]), ("/b", ["p/msg/B", "p/msg/C"])], "services": [("/s", ["p/srv/S"])], "actions": [("/x", ["p/action/X"]), ("/y", ["p/action/Y"])]}


class Topic:
    def __init__(self, kind, qos, group):
        self.kind, self.qos = kind, qos
        self.sent, self.kept = [], []

    def publish(self, m):
        if not isinstance(m, self.kind):
            raise TypeError(f"a {type(m).__name__} on a topic for {self.kind.__name__}")
        m = copy.deepcopy(m)
        self.sent.append(m)
        if getattr(self.qos, "durability", None) == QoSDurabilityPolicy.TRANSIENT_LOCAL:
            self.kept = (self.kept + [m])[-max(1, self.qos.depth):]

    def get_subscription_count(self):
        return 1


class Entity:
    def __init__(self, kind, callback, group):
        self.kind, self.callback, self.group = kind, callback, group
        group.add_entity(self)


class Gate(execute.Gate):
    def __init__(self, server, hz):
        super().__init__()
        self.server, self.hz = server, hz

    def sleep(self):
        self.server.vf_slept = self.hz
        self.server.vf_gate = self
        super().sleep()


def make_class(tree_node):
    fake = boot.make_ros_node()

    class Offline(tree_node.TreeNode):
        """A TreeNode that is connected to nothing."""

        def __init__(self, node_name, **k):
            self.vf_null, self.vf_nanos = fake.null, 0
            self.vf_offered, self.vf_topics, self.vf_timers = {}, {}, []
            self.vf_default_group = MutuallyExclusiveCallbackGroup()
            self.vf_called = node_name
            self.vf_slept, self.vf_gate, self.vf_closed = 0, None, False

        def __del__(self):
            pass

        def vf_state(self):
            """The state of the tree, requested to stop included."""
            for x in vars(self).values():
                if isinstance(x, TreeExecManager):
                    return x.state
            return ""

        def vf_full(self, name):
            return f"/{self.vf_called}/{name[2:]}" if name.startswith("~/") else name if name.startswith("/") else "/" + name

        def create_publisher(self, msg_type, topic, qos_profile=10, *, callback_group=None, **k):
            p = Topic(msg_type, qos_profile, callback_group)
            self.vf_topics.setdefault(self.vf_full(topic), []).append(p)
            return p

        def create_service(self, srv_type, srv_name, callback, *, qos_profile=None, callback_group=None, **k):
            e = Entity(srv_type, callback, callback_group or self.vf_default_group)
            self.vf_offered.setdefault(self.vf_full(srv_name), []).append(e)
            return e

        def create_timer(self, timer_period_sec, callback, callback_group=None, **k):
            self.vf_timers.append((timer_period_sec, callback))

        def create_rate(self, frequency, *a, **k):
            g = Gate(self, frequency)
            g.open = lambda: self.vf_closed or self.vf_state() == "STOP_REQUESTED"
            return g

        def get_logger(self):
            return self.vf_null

        def get_name(self):
            return self.vf_called

        def get_clock(self):
            return fake.get_clock()

        def destroy_node(self):
            pass

        def get_topic_names_and_types(self, *a, **k):
            return CHANNELS["topics"]

        def get_service_names_and_types(self):
            return CHANNELS["services"]
    return Offline


@contextlib.contextmanager
def swapped(o, **new):
    old = {k: getattr(o, k) for k in new}
    for k, v in new.items():
        setattr(o, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(o, k, v)


def module():
    """tree_node, with parameters that are ours."""
    if "ros_bt_py.parameters" not in sys.modules:
        par = types.ModuleType("ros_bt_py.parameters")
        gen = types.ModuleType("ros_bt_py.parameters.tree_node_parameters")

        class Params:
            pass

        class ParamListener:
            given = None

            def __init__(self, node, *a):
                pass

            def get_params(self):
                return ParamListener.given
        gen.Params, gen.ParamListener, par.tree_node_parameters = Params, ParamListener, gen
        sys.modules["ros_bt_py.parameters"], sys.modules["ros_bt_py.parameters.tree_node_parameters"] = par, gen
    return importlib.import_module("ros_bt_py.tree_node")


def option(key, c, value):
    c.set_value(value).unwrap()
    return M.NodeIO(key=key, type=c.serialize_type(), serialized_value=c.serialize_value())


class Server:
    def __init__(self, where):
        self.dir = tempfile.mkdtemp(dir=where)
        for d in ("store", "more", "trees", "ros/share/ament_index/resource_index/packages", "ros/share/some_package"):
            os.makedirs(os.path.join(self.dir, d))
        for f in ("ros/share/ament_index/resource_index/packages/some_package", "ros/share/some_package/inside"):
            open(os.path.join(self.dir, f), "w").close()
        os.environ["AMENT_PREFIX_PATH"] = os.path.join(self.dir, "ros")
        self.files = {k: os.path.join(self.dir, "trees", k + ".yaml") for k in ("good", "sub", "malformed", "missing")}
        self.write("sub", self.tree("inner", [("inside", "L")], [], 1.0))
        self.write("good", self.tree("stored", [("n1", "G"), ("n2", "T")], [("n1", "n2")], 7.0))
        with open(self.files["malformed"], "w") as f:
            f.write("version: 1.0.0\nnodes: {")

    def write(self, name, tree):
        with open(self.files[name], "w") as f:
            f.write("version: 1.0.0\n" + rosidl_runtime_py.message_to_yaml(tree))

    def tree(self, name, kids, wires, hz):
        ns = [self.node(k, n) for n, k in kids]
        for i, n in enumerate(ns):
            n.node_id = str(U(int=i + 2))
        root = self.node("root", "root")
        root.node_id, root.child_ids = str(U(int=1)), [n.node_id for n in ns]
        ids = {n.name: n.node_id for n in ns}
        return M.TreeStructure(name=name, nodes=[root] + ns, tick_frequency_hz=hz, root_id=root.node_id,
                               data_wirings=[self.wire(ids[a], ids[b]) for a, b in wires])

    def node(self, kind, name):
        m, c = CLASS[kind]
        return M.NodeStructure(module=m, node_class=c, name=name, max_children=-1 if kind in ("root", "S") else 0,
                               inputs=[option("subtree_path", PathType(allow_dynamic=False), "file://" + self.files["sub"])] if kind == "S" else [])

    @staticmethod
    def wire(a, b):
        return M.Wiring(source=M.NodeDataLocation(node_id=a, data_kind="outputs", data_key="x"), target=M.NodeDataLocation(node_id=b, data_kind="inputs", data_key="a"))

    def start(self, how, broken=0):
        """Runs the node; returns when it would wait for requests."""
        tn = module()
        p = tn.tree_node_parameters.Params()
        p.node_modules = ["servernodes", "ros_bt_py.ros_nodes"]
        p.tree_storage_paths = [os.path.join(self.dir, "store"), os.path.join(self.dir, "more") + "/"]
        p.show_traceback_on_exception, p.diagnostics_frequency_hz = False, 2.0
        p.default_tree = types.SimpleNamespace(
            load_default_tree=how["load"], load_default_tree_permissive=how["perm"], tick_frequency_hz=3.0,
            tree_path="file://" + self.files[how["path"]], control_command=execute.CODE[how["cmd"]])
        tn.tree_node_parameters.ParamListener.given = p
        server, spins = self, []

        class Executor:
            def __init__(self, num_threads=None, **k):
                server.threads = num_threads

            def add_node(self, node):
                server.tn = node

            def spin(self):
                spins.append(1)
                if len(spins) <= broken:
                    raise InvalidHandle("broken for once")
        LoggingManager._min_log_level = 20
        servernodes.ANSWER[0] = {"run": "RUNNING", "done": "SUCCEEDED", "bad": "ERR"}[how["o"]]
        self.base = set(threading.enumerate())
        self.tn = None
        made = []
        cls = make_class(tn)
        with swapped(tn, TreeNode=lambda *a, **k: made.append(cls(*a, **k)) or made[-1], MultiThreadedExecutor=Executor), \
                swapped(tn.rclpy, init=lambda *a, **k: None, ok=lambda *a, **k: len(spins) <= broken), \
                swapped(rosidl_runtime_py, get_interface_packages=lambda *a: {"std_srvs": "", "example_interfaces": ""}), \
                contextlib.redirect_stdout(E.NOWHERE):
            try:
                with E.limit(20):
                    tn.main([])
                    if self.tn is not None:
                        self.settle()
                what = "" if self.tn is not None else "the node is not executed"
            except E.Hang:
                what = "the node does not start"
            except Exception as e:
                what = f"the start raises {type(e).__name__}: {e}"[:150]
        if self.tn is None:
            self.tn = made[-1] if made else None
        return {"what": what, **self.seen()}

    settle_limit = 10

    def settle(self):
        end = time.time() + self.settle_limit
        while [t for t in threading.enumerate() if t not in self.base]:
            g = self.tn.vf_gate
            if g is not None and g.sleeping and not g.permits and not g.open():
                break
            if time.time() > end:
                raise E.Hang
            time.sleep(0.00005)

    def topic(self, name):
        t = self.tn.vf_topics.get(NAME + name, []) if self.tn is not None else []
        return t[0] if len(t) == 1 else None

    def last(self, name):
        t = self.topic(name)
        return t.kept[-1] if t is not None and t.kept else None

    def seen(self):
        v = {"name": "?", "kids": [], "wires": [], "nested": -1, "ts": "?", "root": "NONE"}
        st, sa = self.last("tree_structure_list"), self.last("tree_state_list")
        zero = str(E.ZERO)
        self.ids = {}
        if st is not None:
            own = [t for t in st.tree_structures if t.tree_id == zero]
            v["nested"] = len(st.tree_structures) - len(own)
            if len(own) == 1:
                t = own[0]
                by = {n.node_id: n for n in t.nodes}
                self.ids = {n.name: n.node_id for n in t.nodes}
                roots = [n for n in t.nodes if n.node_class == "Main"]
                v["name"] = t.name
                v["kids"] = [{"n": by[c].name, "k": KIND.get(by[c].node_class, "?")} if c in by else {"n": "?", "k": "?"} for r in roots for c in r.child_ids]
                if len(t.nodes) != len(roots) + len(v["kids"]):
                    v["nested"] = -2
                nm = lambda i: by[i].name if i in by else "?"
                v["wires"] = [[nm(w.source.node_id), nm(w.target.node_id)] for w in t.data_wirings]
                if roots and sa is not None:
                    v["root"] = "?"
                    for x in sa.tree_states:
                        for n in x.node_states:
                            if x.tree_id == zero and n.node_id == roots[0].node_id:
                                v["root"] = n.state
        if sa is not None:
            own = [t for t in sa.tree_states if t.tree_id == zero]
            v["ts"] = own[0].state if len(own) == 1 else "?"
        return {"view": v, "hz": round(self.tn.vf_slept) if self.tn is not None else 0}

    # -------- requests
    def message(self, q):
        t = TYPES[q["srv"]].Request
        s, n = q["srv"], q.get("n", "")
        i = lambda x: self.ids.get(x, str(U(int=0xfff)))
        root = self.ids.get("root", str(E.ZERO))
        if s == "add_node":
            return t(parent_node_id=root, node=self.node(q["kind"], n))
        if s == "add_node_at_index":
            return t(parent_node_id=root, node=self.node(q["kind"], n), new_child_index=0)
        if s == "remove_node":
            return t(node_id=i(n))
        if s == "morph_node":
            return t(node_id=i(n), new_node=self.node(q["kind"], n))
        if s == "move_node":
            return t(node_id=i(n), parent_node_id=root, new_child_index=0)
        if s == "replace_node":
            return t(old_node_id=i(n), new_node_id=i(q["m"]))
        if s == "set_options":
            return t(node_id=i(n), rename_node=True, new_name=q["m"])
        if s in ("wire_data", "unwire_data"):
            return t(wirings=[self.wire(i(n), i(q["m"]))])
        if s == "change_tree_name":
            return t(name=n)
        if s == "load_tree":
            return t(tree=self.tree("told", [("n1", "L"), ("n2", "S")], [], 4.0))
        if s == "load_tree_from_path":
            return t(path="file://" + self.files[n])
        if s == "get_subtree":
            return t(root_id=i(n))
        if s == "generate_subtree":
            return t(node_ids=[root, i(n)])
        if s == "control_tree_execution":
            return t(command=execute.CODE[q["c"]], tick_frequency_hz=5.0)
        if s.startswith("debug/"):
            return t(data=q["on"])
        if s == "set_log_level":
            return t(min_log_level=q["lvl"])
        if s == "save_tree":
            return t(storage_path=os.path.join(self.dir, "store"), filepath=n, tree=M.TreeStructure(name="x"), allow_overwrite=q["on"])
        if s == "get_folder_structure":
            return t(storage_folder=os.path.join(self.dir, "store"))
        if s == "get_package_structure":
            return t(package=n)
        return t()

    def names(self, s, r):
        if s == "get_subtree":
            return [n.name for n in r.subtree.nodes]
        if s == "generate_subtree":
            return [n.name for n in r.tree.nodes]
        if s == "get_folder_structure":
            return [c["name"] for c in json.loads(r.storage_folder_structure).get("children", [])]
        if s == "get_package_structure":
            return [c["name"] for c in json.loads(r.package_structure).get("children", [])]
        if s == "get_storage_folders":
            return [os.path.relpath(f, self.dir) for f in r.storage_folders]
        if s == "get_available_nodes":
            return [n.node_class for n in r.available_nodes if n.module == "servernodes"]
        return []

    def ask(self, q):
        o = {"what": "", "ok": True, "names": []}
        tn, s = self.tn, q["srv"]
        count = {k: len(self.topic(k).sent) if self.topic(k) else 0 for k in ("log_messages", "debug/node_diagnostics", "tree_data_list")}
        try:
            with contextlib.redirect_stdout(E.NOWHERE), E.limit(15):
                if "o" in q:
                    servernodes.ANSWER[0] = {"run": "RUNNING", "done": "SUCCEEDED", "bad": "ERR"}[q["o"]]
                if s == "turn":
                    if tn.vf_gate is not None and tn.vf_gate.sleeping:
                        tn.vf_gate.permits += 1
                elif s == "off":
                    tn.shutdown()
                else:
                    e = tn.vf_offered.get(NAME + s, [])
                    if len(e) != 1:
                        o["what"] = f"the service {s} is offered {len(e)} times"
                    elif e[0].kind is not TYPES[s]:
                        o["what"] = f"the service {s} has the type {e[0].kind.__name__}"
                    else:
                        r = e[0].callback(self.message(q), TYPES[s].Response())
                        if not isinstance(r, TYPES[s].Response):
                            o["what"] = f"the service {s} answers with {type(r).__name__}"
                        else:
                            o["ok"] = bool(getattr(r, "success", True))
                            o["names"] = self.names(s, r) if o["ok"] else []
                self.settle()
        except E.Hang:
            o["what"] = f"{s} is not answered"
        except Exception as e:
            o["what"] = f"{s} raises {type(e).__name__}: {e}"[:150]
        new = {k: self.topic(k).sent[c:] if self.topic(k) else [] for k, c in count.items()}
        data = [d for m in new["tree_data_list"][-1:] for d in m.tree_data if d.tree_id == str(E.ZERO)]
        o["said"] = len([m for m in new["log_messages"] if m.msg == "said"])
        o["diag"] = bool(new["debug/node_diagnostics"])
        o["data"] = -1 if not new["tree_data_list"] else len(data[0].wiring_data) if len(data) == 1 else -3
        return {**o, **self.seen()}

    def close(self):
        if self.tn is not None:
            servernodes.ANSWER[0] = "RUNNING"
            self.tn.vf_closed = True
            with contextlib.suppress(BaseException), contextlib.redirect_stdout(E.NOWHERE), E.limit(5):
                for e in self.tn.vf_offered.get(NAME + "control_tree_execution", []) * 3:
                    if self.tn.vf_state() != "EDITABLE":
                        e.callback(S.ControlTreeExecution.Request(command=execute.CODE["shutdown"]), S.ControlTreeExecution.Response())
                        self.settle()
        shutil.rmtree(self.dir)

    # -------- facts
    def facts(self):
        tn = self.tn
        offered = {k[len(NAME):]: e[0] for k, e in tn.vf_offered.items() if k.startswith(NAME)}
        for busy, b in offered.items():
            for wanted, w in offered.items():
                b.group.beginning_execution(b)
                served = (self.threads or 8) > 1 and w.group.can_execute(w)
                b.group.ending_execution(b)
                yield {"k": "admit", "busy": busy, "wanted": wanted, "served": bool(served)}
        with contextlib.redirect_stdout(E.NOWHERE), swapped(importlib.import_module("rclpy.action"), get_action_names_and_types=lambda n: CHANNELS["actions"]):
            for n in ("message_types", "packages"):
                t = self.topic(n)
                before = len(t.sent) if t else 0
                yield {"k": "late", "topic": n, "seen": E.canon(self.last(n)) if self.last(n) else "nothing", "latest": E.canon(t.sent[-1]) if t and t.sent else "something"}
                for _, f in tn.vf_timers:
                    f()
                yield {"k": "late", "topic": n + " again", "seen": E.canon(t.sent[-1]) if t and len(t.sent) > before else "nothing", "latest": E.canon(t.sent[0]) if t and t.sent else ""}
        p, l = self.last("packages"), self.last("message_types")
        yield {"k": "late", "topic": "packages", "seen": [x.package for x in p.packages] if p else [], "latest": ["some_package"]}
        yield {"k": "late", "topic": "message_types", "seen": "std_srvs/srv/SetBool" in [x if "/srv/" in x else x.replace("/", "/srv/") for x in l.services] if l else False, "latest": True}
        c = self.topic("message_channels")
        got = c.sent[-1] if c and c.sent else M.MessageChannels()
        yield {"k": "channels", "published": {k: [[x.name, x.type] for x in getattr(got, k)] for k in CHANNELS}, "known": {k: [[n, t[0]] for n, t in v] for k, v in CHANNELS.items()}}
        d = [t for k, t in tn.vf_topics.items() if k == "/diagnostics"]
        yield {"k": "late", "topic": "diagnostics", "seen": bool(d and d[0][0].sent), "latest": True}


PLAIN = {"load": False, "path": "good", "cmd": "nothing", "o": "run", "perm": False}


def work(args):
    where, seed, part, parts, graph, starts, runs = args
    rng = random.Random(seed)
    g = replay.Graph()
    g.ids, g.out = graph
    out, cur = [], [None, None]

    def begin(how, broken=0):
        if cur[0] is not None:
            cur[0].close()
        cur[0] = Server(where)
        cur[1] = {"k": "history", "how": how, "o": cur[0].start(how, broken), "steps": []}
        out.append(cur[1])

    def send(obj, q, obs=None):
        if cur[0].tn is None or cur[1]["o"]["what"]:
            return None
        cur[1]["steps"].append({"q": q, "o": cur[0].ask(q)})

    stats = [0, 0]
    for k, (how, s0) in enumerate(starts):
        if k % parts == part:
            begin(how, broken=k % 2)
            for q in rng.sample(g.out[s0], min(3, len(g.out[s0]))):
                send(None, q[0])
                break
    for init in sorted({s0 for how, s0 in starts if how == PLAIN}):
        mine = lambda s, i: (s * 31 + i) % parts == part    # noqa: E731
        r = replay.cover(g, init, lambda: begin(PLAIN), send, rng, max_len=150, mine=mine, budget=None if THOROUGH else 900)
        stats = [stats[0] + r[0], stats[1] + r[1]]
    if part == 0:
        begin(PLAIN)
        if cur[0].tn is not None:
            out.extend(cur[0].facts())
    for _ in range(runs):
        begin(rng.choice([h for h, _ in starts]), rng.random() < 0.1)
        for _ in range(rng.randint(5, 60)):
            send(None, request(rng, cur[1]["steps"][-1]["o"]["view"] if cur[1]["steps"] else cur[1]["o"]["view"]))
    cur[0].close()
    return out, stats


def request(rng, v):
    """Any request that may be sent to a tree that looks like v."""
    names = [k["n"] for k in v["kids"]]
    kind = {k["n"]: k["k"] for k in v["kids"]}
    fresh = [n for n in ("n1", "n2", "n3", "n4", "n5") if n not in names]
    wired = {n for w in v["wires"] for n in w}
    if v["ts"] != "EDITABLE" and rng.random() < 0.75 or rng.random() < 0.12:
        if rng.random() < 0.3:
            return {"srv": "turn", "o": rng.choice(["run", "run", "done", "bad"])}
        return {"srv": "control_tree_execution", "c": rng.choice(["nothing", "once", "once", "always", "until", "stop", "reset", "shutdown", "shutdown"]),
                "o": rng.choice(["run", "run", "done", "bad"])}
    s = rng.choice(list(TYPES) + ["off", "add_node", "add_node_at_index", "wire_data", "wire_data"])
    q = {"srv": s}
    if v["root"] == "NONE" and v["ts"] == "EDITABLE" and rng.random() < 0.5:
        return {"srv": "add_node", "n": "root", "kind": "root"}
    if s in ("add_node", "add_node_at_index"):
        if fresh and v["root"] != "NONE":
            return {**q, "n": fresh[0], "kind": rng.choice("LGTS")}
    elif s in ("remove_node", "move_node", "get_subtree", "generate_subtree", "morph_node", "replace_node", "set_options"):
        if names:
            q["n"] = rng.choice(names)
            if s == "morph_node":
                return {**q, "kind": rng.choice([k for k in "LGTS" if k != kind[q["n"]]])}
            if s == "replace_node":
                m = rng.choice(names)
                if m != q["n"] and not wired & {m, q["n"]}:
                    return {**q, "m": m}
            elif s == "set_options":
                if fresh:
                    return {**q, "m": rng.choice(fresh)}
            else:
                return q
    elif s in ("wire_data", "unwire_data"):
        gs = [n for n in names if kind[n] == "G"]
        ts = [n for n in names if kind[n] == "T" and (s == "unwire_data" or n not in {w[1] for w in v["wires"]})]
        if gs and ts:
            return {**q, "n": rng.choice(gs), "m": rng.choice(ts)}
    elif s == "control_tree_execution":
        pass
    elif s.startswith("debug/"):
        return {**q, "on": rng.random() < 0.6}
    elif s == "set_log_level":
        return {**q, "lvl": rng.choice([10, 20, 30, 50])}
    elif s == "save_tree":
        return {**q, "n": rng.choice("fg"), "on": rng.random() < 0.4}
    elif s == "load_tree_from_path":
        return {**q, "n": rng.choice(["good", "good", "missing", "malformed"])}
    elif s == "get_package_structure":
        return {**q, "n": rng.choice(["some_package", "no_package"])}
    elif s == "change_tree_name":
        return {**q, "n": rng.choice(["other", "another"])}
    elif s == "reload":
        if v["root"] != "NONE":
            return q
    else:
        return q
    return {"srv": "get_storage_folders"}


def run(check):
    g, starts = replay.Graph(), []

    def line(v):
        if len(v) == 2:
            starts.append((v[0], g.state(v[1])))
        else:
            g.edge(g.state(v[0]), v[1], None, g.state(v[2]))
    res = tlc.run("ServerMC", workers=4, on_line=line)
    if not res.ok:
        raise RuntimeError("the specification violates its own properties:\n" + res.violation[-3000:])
    check.add(states=res.distinct, transitions=res.states)
    starts = sorted(starts, key=lambda x: json.dumps(x, sort_keys=True))
    where = tempfile.mkdtemp(prefix="verif.server.", dir=tlc.SCRATCH)
    try:
        with Pool(8) as pool:
            done = list(pool.imap_unordered(work, [(where, SEED * 1000 + i, i, 8, (g.ids, g.out), starts, 25 if not THOROUGH else 500) for i in range(8)]))
    finally:
        shutil.rmtree(where, ignore_errors=True)
    traces = [t for o, _ in done for t in o]
    check.add(traces_validated_against_impl=len(traces), requests=sum(len(t.get("steps", [])) for t in traces),
              transitions_replayed=sum(s[1] for _, s in done), transitions_of_the_model=g.edges)
    check.sample(next(({"how": t["how"], "first": t["steps"][:2]} for t in traces if t["k"] == "history" and len(t["steps"]) > 1), None))

    def job(chunk):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        r = tlc.run("ServerTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not r.ok or r.distinct != len(chunk) + 1:
            raise RuntimeError(f"ServerTrace failed:\n{r.out[-3000:]}")
        return [(chunk[v[0] - 1], v[1]) for v in vs if v[1]]
    size = -(-len(traces) // 8)
    for r in tlc.parallel([lambda i=i: job(traces[i:i + size]) for i in range(0, len(traces), size)]):
        for t, (i, why, view) in r:
            if t["k"] != "history":
                check.violation(f"{t['k']}: {json.dumps({k: v for k, v in t.items() if k != 'k'})[:200]}", t)
                continue
            at = t["steps"][i - 1] if i else None
            check.violation(f"{why}: {'start ' + json.dumps(t['how']) if at is None else json.dumps(at['q'])} -> {json.dumps((at or t)['o'])[:300]} instead of {view}",
                            {**t, "steps": t["steps"][:i]})
    check.assumptions += ["ROS carries requests, answers and messages as the quality of service of a topic promises; parameters have been validated",
                          "requests one at a time (overlapping ones: C13)"]
