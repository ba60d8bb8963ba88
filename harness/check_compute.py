"""C28: nodes that compute outputs from inputs. See BTCompute."""

import inspect
import os
import random
import shutil
import tempfile

import rosfakes as F
import protocols as P
from common import THOROUGH
import yaml
import std_msgs.msg
import builtin_interfaces.msg
import geometry_msgs.msg
import action_msgs.msg
import ros_bt_py_interfaces.msg
from ros_bt_py.data_types import GENERIC_TYPE_MAP, GenericType, RosTopicType, BoolType, RosComponentType, ReferenceContainer, ListType, IntType, DictType, get_iotype_for_dict
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.nodes import compare, constant, file, format as format_, getters, io, list as list_, maths, passthrough_node, random_number, setters
from ros_bt_py.ros_nodes import enum, message_converters, param, time as time_
from rclpy.parameter import Parameter
from rcl_interfaces.msg import ParameterDescriptor
from ros_bt_py.vendor.result import Ok

U = 4096
PY = {"int": int, "float": float, "bool": bool, "str": str, "list": list, "dict": dict}
MODULES = [compare, constant, file, format_, getters, io, list_, maths, passthrough_node, random_number, setters, enum, message_converters, param, time_]
NONE = {"t": "none", "n": 0, "s": "", "keys": [], "items": []}


def V(t, n=0, s="", keys=(), items=()):
    return {"t": t, "n": n, "s": s, "keys": list(keys), "items": list(items)}


def fields(cls):
    return list(cls.get_fields_and_field_types())


def name(cls):
    return f"{cls.__module__.split('.')[0]}/{cls.__name__}"


def message(ty):
    pkg, cls = ty.split("/")
    return getattr(__import__(f"{pkg}.msg", fromlist=[cls]), cls)


def enc(x):
    if x is None:
        return NONE
    if isinstance(x, bool):
        return V("bool", int(x))
    if isinstance(x, int):
        return V("int", x if abs(x) < 2**31 else 2**31 - 1)
    if isinstance(x, float):
        n = round(x * U) if abs(x) < 2**18 else 2**31 - 1
        return V("float", n)
    if isinstance(x, str):
        return V("str", 0, x)
    if isinstance(x, (list, tuple)):
        return V("list", items=[enc(e) for e in x])
    if isinstance(x, dict):
        return V("dict", keys=list(x), items=[enc(e) for e in x.values()])
    if hasattr(x, "get_fields_and_field_types"):
        return V("msg", 0, name(type(x)), fields(x), [enc(getattr(x, f)) for f in fields(x)])
    return V("other", 0, repr(type(x)))


def dec(v):
    t = v["t"]
    if t in ("int", "bool"):
        return PY[t](v["n"])
    if t == "float":
        return v["n"] / U
    if t == "str":
        return v["s"]
    if t == "list":
        return [dec(e) for e in v["items"]]
    if t == "dict":
        return dict(zip(v["keys"], map(dec, v["items"])))
    if t == "msg":
        return message(v["s"])(**dict(zip(v["keys"], map(dec, v["items"]))))
    raise ValueError(t)


class Child(Leaf):
    said = None

    def _do_setup(self):
        return Ok(BTNodeState.IDLE)

    def _do_tick(self):
        return Ok(self.said)

    _do_untick = _do_reset = _do_setup

    def _do_shutdown(self):
        return Ok(BTNodeState.SHUTDOWN)


Child = define_bt_node(NodeConfig(inputs={}, outputs={}, max_children=0))(Child)

CLASS = {n: c for m in MODULES for n, c in vars(m).items() if inspect.isclass(c) and c.__module__ == m.__name__}
TYPES = {"Compare": ["compare_type"], "CompareNewOnly": ["compare_type"], "ALessThanB": ["operand_type"], "Convert": ["input_type", "output_type"], "Operation": ["operand_type"],
         "UnaryOperation": ["operand_type"], "ListLength": ["element_type"], "InsertInList": ["element_type"], "IsInList": ["compare_type"], "AppendListItem": ["list_type"],
         "SetDictItem": ["attr_type"], "GetListItem": ["list_type"], "GetDictItem": ["value_type"], "GetMultipleDictItems": ["value_type"], "GetAttr": ["object_type", "attr_type"],
         "SetAttr": ["object_type", "attr_type"], "Constant": ["constant_type"], "IOInput": ["io_type"], "IOOutput": ["io_type"], "PassthroughNode": ["passthrough_type"],
         "EnumFields": ["ros_message_type"], "MessageToFields": ["input_type"], "FieldsToMessage": ["output_type"], "YamlList": [None, "element_type"], "YamlDict": [None, "element_type"], "RosParam": ["param_type"]}
ASK_ROS = ("GetTimeNow", "RosParam")
GETTERS = ("GetListItem", "GetDictItem", "GetMultipleDictItems", "GetAttr")


def typed(cls, key, ty):
    if key == "ros_message_type":
        return RosComponentType(value=message(ty))
    if "/" in ty and key in ("object_type", "input_type", "output_type"):
        return RosTopicType(value=message(ty))
    if "/" in ty:
        v = dict(GENERIC_TYPE_MAP[object])
        v["ros_msg_type"] = ty.replace("/", "/msg/")
        return GenericType(value=v)
    return GenericType(value=GENERIC_TYPE_MAP[PY[ty]])


class Driver:
    def __init__(self, cfg, rng):
        self.cfg, self.rng = cfg, rng
        c = CLASS[cfg["cls"]]
        template = c._node_config.inputs
        new = {}
        for key, ty in zip(TYPES.get(cfg["cls"], []), [cfg["ity"], cfg["oty"]]):
            if key:
                new[key] = typed(cfg["cls"], key, ty)
                for a in ("valid_types",):
                    if hasattr(template[key], a):
                        setattr(new[key], a, getattr(template[key], a))
        if cfg["cls"] in GETTERS:
            new["succeed_on_stale_data"] = BoolType(allow_dynamic=False, value=bool(cfg["stale"]))
        for key in cfg["keys"]:
            if isinstance(template.get(key), ReferenceContainer):
                new[key] = type(template[key])(reference=template[key].serialize_type().reference_target, is_static=False)
                new[key].set_type_map(new).unwrap()
        self.ros = None if cfg["cls"] in ASK_ROS and cfg["stale"] else F.ros(F.World())
        if self.ros:
            self.ros._parameters, self.ros._descriptors, self.ros._allow_undeclared_parameters = {}, {}, False
        self.node = c(name="n", ros_node=self.ros, new_inputs=new)
        if cfg["cls"].startswith("FormatString"):
            inner = ListType(element_type=IntType()) if cfg["ity"] == "list" else get_iotype_for_dict(GENERIC_TYPE_MAP[PY[cfg["ity"]]]).unwrap()
            self.node.node_config.inputs["dict"] = DictType(element_type=inner, is_static=False)
        F.dynamic(self.node, [k for k in cfg["keys"] if k not in new])
        if cfg["cls"] == "Constant":
            self.node.node_config.inputs["constant_value"].set_value(dec(cfg["val"])).unwrap()
        self.child = None
        if cfg["child"]:
            self.child = Child(name="c", ros_node=self.node.ros_node)
            self.node.add_child(self.child).unwrap()
        self.on = False
        self.where = None

    def file(self, p):
        if self.where is None:
            self.where = tempfile.mkdtemp(dir=os.environ["VERIF_SCRATCH"])
        return f"file://{self.where}/{p}"

    def write(self, p, v):
        if self.ros is None:
            return
        if self.cfg["cls"] == "GetTimeNow":
            sec, nanosec = [x["n"] for x in v["items"]]
            self.ros.nanos = sec * 10**9 + nanosec
            return
        if self.cfg["cls"] == "RosParam":
            self.ros._parameters[p] = Parameter(p, Parameter.Type.NOT_SET) if v["t"] == "none" else Parameter(p, value=dec(v))
            self.ros._descriptors[p] = ParameterDescriptor(name=p, dynamic_typing=self.rng.random() < 0.5)
            return
        path = self.file(p)[7:]
        if v["t"] == "bad":
            how = self.rng.choice([b"[a, b", b"\xff\xfe\xff", None, b"{a: b", b"word", b"&a [*b]", b"\x00"])
            if os.path.isfile(path):
                os.unlink(path)
            if how is not None:
                with open(path, "wb") as f:
                    f.write(how)
        else:
            with open(path, "w") as f:
                yaml.safe_dump(dec(v), f)

    def put(self, k, v):
        x = dec(v)
        if k == "file_path":
            x = self.file(x) if x != "none" else "package://no_package/x"
        F.put(self.node, k, x)

    def value(self, k, c):
        x = c.get_value()
        x = x.unwrap() if x.is_ok() else None
        if k == "file_path" and x is not None:
            return V("str", 0, x.split("/")[-1] if x.startswith("file") else "none")
        return enc(x)

    def do(self, e):
        n, k, r = self.node, e["k"], ""
        if k in ("tick", "run"):
            for key, v in zip(self.cfg["keys"], e.get("in", [])):
                self.put(key, v)
            if self.child:
                self.child.said = e.get("child", "SUCCEEDED")
            r = F.call(n, "tick")
        elif k == "put":
            self.put(e["key"], e["v"])
        elif k == "file":
            self.write(e["p"], e["v"])
        else:
            r = F.call(n, k)
        if k == "setup":
            self.on = r == "IDLE"
        elif k in ("shutdown", "tick", "run"):
            self.on = r in ("FAILED", "SUCCEEDED", "RUNNING")
        c = n.node_config
        return {"r": r, "out": [self.value(x, c.outputs[x]) for x in self.cfg["outs"]], "in": [self.value(x, c.inputs[x]) for x in self.cfg["keys"]]}

    def __del__(self):
        if getattr(self, "where", None):
            shutil.rmtree(self.where, ignore_errors=True)


def same(v, o):  # as Same in BTCompute
    if v["t"] == "any":
        return True
    if v["t"] == "range":
        return o["t"] == "int" and v["items"][0]["n"] <= o["n"] <= v["items"][1]["n"]
    if v["t"] == "float" and o["t"] in ("int", "bool"):
        return v["n"] == U * o["n"]
    if v["t"] == "float":
        return o["t"] == "float" and abs(v["n"] - o["n"]) <= 1
    if {v["t"], o["t"]} == {"int", "bool"}:
        return v["n"] == o["n"]
    if v["t"] != o["t"] or v["n"] != o["n"] or v["s"] != o["s"] or len(v["items"]) != len(o["items"]):
        return False
    if v["t"] == "dict":
        return sorted(v["keys"]) == sorted(o["keys"]) and all(same(x, o["items"][o["keys"].index(k)]) for k, x in zip(v["keys"], v["items"]))
    return v["keys"] == o["keys"] and all(same(a, b) for a, b in zip(v["items"], o["items"]))


def differ(cfg):
    def d(exp, obs):
        if exp["r"] == "open":
            return None if obs["r"] in ("SUCCEEDED", "FAILED", "err") else f"{cfg['cls']}: {obs['r']}"
        if exp["r"] == "refused":
            return None if obs["r"] in ("FAILED", "err") else f"{cfg['cls']}: {obs['r']}, should be a failure or an error"
        if exp["r"] != obs["r"]:
            return f"{cfg['cls']}: {obs['r']}, should be {exp['r']}"
        for what in ("out", "in"):
            for k, v, o in zip(cfg["outs" if what == "out" else "keys"], exp.get(what, []), obs[what]):
                if not same(v, o):
                    return f"{cfg['cls']}: {what}put {k}: {show(o)}, should be {show(v)}"
    return d


def show(v):
    try:
        return repr(dec(v))
    except Exception:
        return v["t"]


LETTERS = "abAB_.{}! /€"


def text(rng):
    return "".join(rng.choice(LETTERS) for _ in range(rng.choice([0, 1, 2, 4])))


def some(ty, rng, depth=0):
    """A random value of a type."""
    if ty == "int":
        return V("int", rng.choice([rng.randint(-5, 5), rng.randint(-99, 99)]))
    if ty == "float":
        return V("float", U // 4 * rng.randint(-12, 12))
    if ty == "bool":
        return V("bool", rng.randint(0, 1))
    if ty == "str":
        return V("str", 0, text(rng))
    if ty.startswith("list of "):
        return V("list", items=[some(ty[8:], rng) for _ in range(rng.randint(0, 4))])
    if ty.startswith("dict of "):
        ks = rng.sample(["a", "b", "c d", "", "e"], rng.randint(0, 4))
        return V("dict", keys=ks, items=[some(ty[8:], rng) for _ in ks])
    if "/" in ty:
        return enc(make(ty, rng))
    raise ValueError(ty)


def make(ty, rng):
    c = message(ty)
    m = c()
    for f, t in c.get_fields_and_field_types().items():
        if t == "string":
            setattr(m, f, text(rng))
        elif "/" in t:
            setattr(m, f, make(t, rng))
        elif t == "boolean":
            setattr(m, f, rng.random() < 0.5)
        elif t in ("int8", "int16", "int32", "int64"):
            setattr(m, f, rng.randint(-100, 100))
        elif t.startswith("uint"):
            setattr(m, f, rng.randint(0, 100))
        elif t in ("double", "float"):
            setattr(m, f, rng.randint(-12, 12) / 4)
    return m


MSGS = ["std_msgs/Header", "builtin_interfaces/Time", "geometry_msgs/PoseStamped", "geometry_msgs/Vector3", "std_msgs/ColorRGBA", "std_msgs/Bool", "geometry_msgs/Transform"]
ENUMS = ["ros_bt_py_interfaces/EnumTest", "ros_bt_py_interfaces/NodeState", "ros_bt_py_interfaces/TreeState", "action_msgs/GoalStatus", "std_msgs/String"]
BASIC = ["int", "float", "bool", "str"]


def paths(v, before=()):
    yield ".".join(before), v
    if v["t"] == "msg":
        for k, x in zip(v["keys"], v["items"]):
            yield from paths(x, before + (k,))


def config(rng):
    """A random node and what its inputs may be: a function per input."""
    cls = rng.choice(sorted(c for c in CLASS if c in IO and c not in ("YamlList", "YamlDict")) + ["Operation", "UnaryOperation", "YamlList", "YamlDict", "FormatString", "GetAttr", "SetAttr", "RosParam", "GetTimeNow"])
    keys, outs = IO[cls]
    t = rng.choice(BASIC)
    ity = oty = t
    val = NONE
    if cls in ("Operation", "UnaryOperation"):
        ity = oty = rng.choice(["int", "float", "bool"])
    elif cls == "ALessThanB":
        ity = oty = rng.choice(["int", "float"])
    elif cls == "Convert":
        ity, oty = rng.choice(BASIC), rng.choice(BASIC)
    elif cls == "GetMultipleDictItems":
        oty = "list"
    elif cls in ("GetAttr", "SetAttr"):
        ity = rng.choice(MSGS)
        oty = rng.choice([w["s"] if w["t"] == "msg" else w["t"] for p, w in paths(enc(message(ity)())) if p])
    elif cls in ("MessageToFields", "FieldsToMessage"):
        ity, oty = rng.choice(MSGS), "any"
        keys, outs = (keys, fields(message(ity))) if cls == "MessageToFields" else (fields(message(ity)), outs)
    elif cls == "EnumFields":
        ity, oty = rng.choice(ENUMS), "any"
        val = constants(message(ity))
        outs = val["keys"]
    elif cls == "Constant":
        val = some(t, rng)
    elif cls.startswith("Yaml"):
        ity = "any"
    elif cls == "RosParam":
        ity = oty = rng.choice(["int", "float", "bool"])
    elif cls == "GetTimeNow":
        ity = oty = "any"
    elif cls.startswith("FormatString"):
        oty = "str"
    return {"cls": cls, "keys": keys, "outs": outs, "ity": ity, "oty": oty, "stale": rng.random() < (0.4 if cls in GETTERS else 0.1 if cls in ASK_ROS else 0), "child": int(rng.random() < 0.4 and cls in GETTERS), "val": val}


def constants(c):
    m = type(c)
    ks = [k for k in dir(m) if not k.startswith("_") and isinstance(getattr(m, k), (int, str)) and not callable(getattr(m, k))]
    return V("none", keys=ks, items=[enc(getattr(c, k)) for k in ks])


IO = {"Compare": (["a", "b"], []), "CompareNewOnly": (["a", "b"], []), "ALessThanB": (["a", "b"], []), "Convert": (["in"], ["out"]), "Operation": (["operator", "a", "b"], ["result"]),
      "UnaryOperation": (["operator", "in"], ["result"]), "ListLength": (["list"], ["length"]), "InsertInList": (["index", "list", "element"], ["list"]), "IsInList": (["list", "in"], []),
      "AppendListItem": (["list", "value"], ["new_list"]), "SetDictItem": (["attr_name", "object", "attr_value"], ["new_object"]), "GetListItem": (["index", "list"], ["item"]),
      "GetDictItem": (["key", "dict"], ["value"]), "GetMultipleDictItems": (["keys", "dict"], ["values"]), "GetAttr": (["attr_name", "object"], ["attr"]),
      "SetAttr": (["attr_name", "object", "attr_value"], ["new_object"]), "StringConcatenation": (["a", "b"], ["formatted_string"]), "FormatString": (["format_string", "dict"], ["formatted_string"]),
      "FormatStringList": (["format_strings", "dict"], ["formatted_strings"]), "GetFileExtension": (["path"], ["filename", "extension"]), "Constant": ([], ["constant"]),
      "IOInput": (["in"], ["out"]), "IOOutput": (["in"], ["out"]), "PassthroughNode": (["in"], ["out"]), "RandomInt": (["min", "max"], ["random_number"]), "EnumFields": ([], []),
      "MessageToFields": (["in"], []), "FieldsToMessage": ([], ["out"]), "YamlList": (["file_path"], ["load_success", "load_error_msg", "content", "line_count"]),
      "YamlDict": (["file_path"], ["load_success", "load_error_msg", "content"]), "GetTimeNow": ([], ["current_time"]), "RosParam": (["param_name", "default_value"], ["param"])}
BIN = "add + and & div / floordiv // lshift << mod % mul * or | pow ** rshift >> sub - truediv xor ^".split()
UN = ("not inv ~ neg - pos + ceil floor factorial exp expm1 log log1p log10 fabs sqrt acos asin atan acosh asinh atanh cos sin tan cosh sinh tanh degrees radians erf erfc gamma lgamma").split()


def template(rng):
    return "".join(rng.choice(["x", "Y z", "{a}", "{b}", "{e}", "{a!u}", "{b!l}", "{a!r}", "{b!s}", "{a!c}", "{{", "}}", "{q}", "{a!x}", "{", "}"][: rng.choice([12, 12, 16])]) for _ in range(rng.randint(0, 4)))


def value(d, k, rng):
    """A value for an input."""
    c = d.cfg
    cls, ity = c["cls"], c["ity"]
    if cls == "Operation" and k == "operator":
        return V("str", 0, rng.choice(BIN))
    if cls == "UnaryOperation" and k == "operator":
        return V("str", 0, rng.choice(UN))
    if cls == "Operation" and ity == "int":
        return V("int", rng.randint(-9, 9) if k == "a" else rng.randint(-3, 6))
    if cls == "UnaryOperation" and ity == "int":
        return V("int", rng.choice([-3, -2, -1, 0, 1, 2, 3, 6, 12]))
    if k == "list":
        return some("list of " + ity, rng)
    if cls in ("GetAttr", "SetAttr"):
        if k == "attr_name":
            ps = [p for p, w in paths(enc(message(ity)())) if p and (cls == "GetAttr" or c["oty"] in (w["t"], w["s"]))]
            return V("str", 0, rng.choice(ps + ["none", rng.choice(ps) + ".none"]))
        return some(ity if k == "object" else c["oty"], rng)
    if k in ("dict", "object"):
        return some("dict of " + ity, rng)
    if k in ("index",):
        return V("int", rng.randint(0, 5))
    if k in ("key", "attr_name"):
        return V("str", 0, rng.choice(["a", "b", "c d", "", "e"]))
    if k == "keys":
        return V("list", items=[V("str", 0, x) for x in rng.sample(["a", "b", "c d", "", "e"], rng.choice([0, 1, 1, 2]))])
    if k == "format_string":
        return V("str", 0, template(rng))
    if k == "format_strings":
        return V("list", items=[V("str", 0, template(rng)) for _ in range(rng.randint(0, 3))])
    if k == "path":
        return V("str", 0, "".join(rng.choice(["a", "b", ".", "/", "..", ".yaml"]) for _ in range(rng.randint(0, 6))))
    if k == "file_path":
        return V("str", 0, rng.choice(["1", "2", "none"]))
    if k == "param_name":
        return V("str", 0, rng.choice(["1", "2", "x.y"]))
    if k in ("min", "max"):
        return V("int", rng.randint(-3, 3))
    if cls == "StringConcatenation":
        return some("str", rng)
    if cls == "FieldsToMessage":
        v = enc(make(ity, rng))
        return v["items"][v["keys"].index(k)]
    return some(ity, rng)


def choose(d, rng):
    if not d.on:
        return {"k": "setup"} if d.node.state in (BTNodeState.UNINITIALIZED, BTNodeState.SHUTDOWN) else {"k": "shutdown"}
    es = [({"k": "tick", "child": rng.choice(["SUCCEEDED", "SUCCEEDED", "RUNNING", "FAILED"]) if d.child else "SUCCEEDED"}, 5), ({"k": "untick"}, 0.3), ({"k": "reset"}, 0.3), ({"k": "shutdown"}, 0.1)]
    unset = [k for k in d.cfg["keys"] if not d.node.node_config.inputs[k].has_value()]
    if unset and rng.random() < 0.97:
        return {"k": "put", "key": unset[0], "v": value(d, unset[0], rng)}
    if d.cfg["keys"]:
        k = rng.choice(d.cfg["keys"])
        es.append(({"k": "put", "key": k, "v": value(d, k, rng)}, 6))
        es.append(({"k": "run", "in": [value(d, k, rng) for k in d.cfg["keys"]]}, 4))
    if d.cfg["cls"].startswith("Yaml"):
        v = V("bad") if rng.random() < 0.3 else some(rng.choice(["list of ", "dict of "]) + rng.choice(BASIC), rng)
        if v["t"] == "bad" or v["items"]:
            es.append(({"k": "file", "p": rng.choice("12"), "v": v}, 3))
    if d.cfg["cls"] == "GetTimeNow":
        es.append(({"k": "file", "p": "clock", "v": some("builtin_interfaces/Time", rng) if rng.random() < 0.5 else enc(builtin_interfaces.msg.Time(sec=rng.randint(0, 10**6), nanosec=rng.randint(0, 10**9 - 1)))}, 4))
        es = [x for x in es if x[0]["k"] != "file" or x[0]["v"]["items"][0]["n"] >= 0]
    if d.cfg["cls"] == "RosParam":
        v = NONE if rng.random() < 0.2 else some(rng.choice([d.cfg["ity"], d.cfg["ity"], "int", "float", "bool", "str"]), rng)
        es.append(({"k": "file", "p": rng.choice(["1", "2", "x.y"]), "v": v}, 3))
    return rng.choices([x[0] for x in es], [x[1] for x in es])[0]


def documented(check):
    """The example in the documentation of FormatString."""
    n = format_.FormatString(name="f", ros_node=F.ros(F.World()))
    ok = n.node_config.inputs["format_string"].set_value("foo {first}").is_ok() and n.node_config.inputs["dict"].set_value({"first": "bar", "second": "not_printed"}).is_ok()
    ok = ok and F.call(n, "setup") == "IDLE" and F.call(n, "tick") == "SUCCEEDED" and F.got(n, "formatted_string") == "foo bar"
    if not ok:
        check.violation("FormatString: the documented example, a dictionary of texts, is refused", {"example": {"first": "bar", "second": "not_printed"}})


def run(check):
    g, res = P.explore("ComputeMC", fresh=lambda s: not s["files"])
    check.add(states=res.distinct, transitions=res.states)
    P.decide(check, "compute", "data nodes", g, lambda rng, s: Driver(s["c"], rng), Driver, choose, config, "ComputeTrace", 600 if THOROUGH else 90, 300 if THOROUGH else 25, length=40,
             differ=lambda s: differ(s["c"]))
    documented(check)
    check.assumptions += ["values are small numbers (floats multiples of a quarter), short texts, lists, dictionaries and messages of the installed packages",
                          "elementary functions are compared with a table at multiples of a quarter, to 1/4096"]
