"""Types and values of data slots: construction of the real ones and their projection to BTSlot's records."""

import array
import json
import random

import boot

boot.load()

from ros_bt_py import data_types as D  # noqa: E402
from ros_bt_py_interfaces.msg import NodeDataType as M  # noqa: E402
from ros_bt_py.helpers import FLOAT_LIMITS, INT_FLOAT_MAX, INT_LIMITS  # noqa: E402
import std_msgs.msg as std  # noqa: E402
import std_srvs.srv as std_srv  # noqa: E402
import geometry_msgs.msg as geo  # noqa: E402
import example_interfaces.action as exa  # noqa: E402

FMAX = FLOAT_LIMITS["double"][1]
BIG = 10**400       # an integer that is no float
NUMBERS = sorted({
    BIG, -BIG, -FMAX, float("-inf"), float("inf"), FMAX, -2**63 - 1, -2**63, 2**63 - 1, 2**63, 2**64 - 1, 2**64,
    -2**31, 2**31 - 1, -129, -128, 127, 128, 255, 256, -32768, 32767, 65535, 2**32 - 1, -3.5, -2, -1, -0.5, 0, 0.5, 1, 1.2,
    1.5, 2, 2.5, 3, 4, 5, 7, 10, -3.4028234663852886e38, 3.4028234663852886e38, 1e300, *FLOAT_LIMITS["float"]})
RANK = {x: i for i, x in enumerate(NUMBERS)}
UNLIMITED = INT_FLOAT_MAX


def rank(x):
    """Order preserving; numbers that are in no table (results of defects) get no valid rank."""
    return RANK.get(x, -7)


def mx(n):
    if n < 1000:
        return int(n)
    return {INT_FLOAT_MAX: 1000000, 2**64 - 1: 1000001}.get(n, 999999)


# --------------------------------------------------------------------------------------------- types

def ty(k, lo=None, hi=None, mx=None, strict=False, opt=None, elem=None, dyn=True, sta=True, isSta=None, id=0, rk="", mt="",
       ref="", of=None, given=()):
    """A type description with Python values; given names the arguments passed to the constructor."""
    if k in ("gtype", "rtype"):
        dyn = False
    return dict(k=k, lo=lo, hi=hi, mx=mx, strict=strict, opt=opt, elem=elem, dyn=dyn, sta=sta,
                isSta=sta if isSta is None else isSta, id=id, rk=rk, mt=mt, ref=ref, of=of)


RT = {"msg": D.RosTopicType, "srv": D.RosServiceType, "action": D.RosActionType, "comp": D.RosComponentType}
RN = {"msg": D.RosTopicName, "srv": D.RosServiceName, "action": D.RosActionName}
MSGS = {m.__module__.split(".")[0] + "/msg/" + m.__name__: m
        for m in (std.Bool, std.Int64, std.UInt8, std.String, std.Empty, std.Float32, std.Byte, std.ColorRGBA, std.Header,
                  geo.Point, geo.Pose, geo.Polygon, std.MultiArrayDimension, std.Int32MultiArray, geo.PoseWithCovariance,
                  std.ByteMultiArray, std.UInt8MultiArray, std.Float64MultiArray)}
PY = {"bool": bool, "int": int, "float": float, "str": str, "bytes": bytes, "list": list, "dict": dict, "object": object}


def build(t, value=None):
    """The real slot; raises what the constructor raises."""
    kw = dict(allow_dynamic=t["dyn"], allow_static=t["sta"], is_static=t["isSta"])
    k = t["k"]
    if k in ("ref", "reflist", "refdict"):
        cls = {"ref": D.ReferenceType, "reflist": D.ReferenceListType, "refdict": D.ReferenceDictType}[k]
        r = cls(reference=t["ref"], **kw)
        if t["of"] is not None:
            g = t["of"]
            target = (RT[g["rk"]](value=g["py"]) if g["t"] == "rtype" else D.GenericType(value=g["py"]))
            r.set_type_map({t["ref"]: target, "other": D.BoolType()}).unwrap()
        return r
    if value is not None:
        kw["value"] = value
    if k == "bool":
        return D.BoolType(**kw)
    if k in ("int", "float"):
        return (D.IntType if k == "int" else D.FloatType)(min_value=t["lo"], max_value=t["hi"], **kw)
    if k in ("str", "path", "bytes"):
        return {"str": D.StringType, "path": D.PathType, "bytes": D.BytesType}[k](max_length=t["mx"], valid_values=t["opt"], **kw)
    if k in ("list", "dict"):
        return (D.ListType if k == "list" else D.DictType)(element_type=build(t["elem"]), max_length=t["mx"],
                                                           strict_length=t["strict"], **kw)
    if k == "gtype":
        if t["opt"] is not None:
            kw["valid_types"] = [PY[o] for o in t["opt"]]
        return D.GenericType(**kw)
    if k == "rtype":
        return RT[t["rk"]](interface_id=t["id"], **kw)
    if k == "name":
        return RN[t["rk"]](interface_id=t["id"], **kw)
    if k == "msg":
        return D.RosMessageType(message_type=MSGS[t["mt"]], interface_id=t["id"], **kw)
    raise ValueError(k)


def rec(t):
    """BTSlot's record of the type."""
    k = t["k"]
    lo, hi, m = t["lo"], t["hi"], t["mx"]
    if k == "int":
        lo, hi = (-2**63 if lo is None else lo), (2**64 - 1 if hi is None else hi)
    if k == "float":
        lo, hi = (-FMAX if lo is None else lo), (FMAX if hi is None else hi)
    if m is None:
        m = 1 if k == "bytes" else UNLIMITED
    opt = t["opt"]
    if k == "gtype" and opt is None:
        opt = list(PY)
    return dict(k=k, lo=rank(lo) if lo is not None else 0, hi=rank(hi) if hi is not None else 0, mx=mx(m), strict=t["strict"],
                hasopt=opt is not None, opt=opt or [], optlen=[len(o) for o in opt or []],
                elem=[rec(t["elem"])] if t["elem"] else [],
                dyn=t["dyn"], sta=t["sta"], isSta=t["isSta"], rk="msg" if k == "msg" else t["rk"], id=t["id"], mt=t["mt"], ref=t["ref"],
                of=pub(t["of"]) if t["of"] else {}, nolimit=mx(UNLIMITED))


# --------------------------------------------------------------------------------------------- values

def blank(t, **kw):
    d = dict(t=t, n=0, s="", l=0, items=[], keys=[], pre="", rk="", lo=0, hi=0, mx=0, strict=False, mt="")
    d.update(kw)
    return d


def pub(v):
    return {k: x for k, x in v.items() if k != "py"}


IDNAME = {M.BOOL_TYPE: "bool", M.INT_TYPE: "int", M.FLOAT_TYPE: "float", M.STRING_TYPE: "str", M.BYTES_TYPE: "bytes",
          M.LIST_TYPE: "list", M.DICT_TYPE: "dict", M.ROS_INTERFACE_VALUE: "object"}
KEYS = {"bool": set(), "int": {"min_value", "max_value"}, "float": {"min_value", "max_value"}, "str": {"max_length"},
        "bytes": {"max_length"}, "list": {"max_length", "strict_length", "element_type"},
        "dict": {"max_length", "strict_length", "element_type"}, "object": {"ros_msg_type"}}


def gtag(d):
    """A well-formed type value, or None."""
    if not isinstance(d, dict) or d.get("type_identifier") not in IDNAME:
        return None
    s = IDNAME[d["type_identifier"]]
    if set(d) - {"type_identifier"} != KEYS[s]:
        return None
    e = []
    if "element_type" in d:
        e = [gtag(d["element_type"])]
        if e[0] is None:
            return None
    return blank("gtype", s=s, lo=rank(d.get("min_value", 0)), hi=rank(d.get("max_value", 0)), mx=mx(d.get("max_length", 0)),
                 strict=bool(d.get("strict_length", False)), items=e, mt=d.get("ros_msg_type", ""))


def tag(x, k=""):
    """BTSlot's record of a Python value; k: kind of slot it is offered to or read from."""
    if x is None:
        return blank("none")
    if isinstance(x, bool):
        return blank("bool", n=rank(int(x)))
    if isinstance(x, int):
        return blank("int", n=rank(x))
    if isinstance(x, float):
        return blank("float", n=rank(x))
    if isinstance(x, str):
        return blank("str", s=x, l=len(x), pre="file" if x[:7] == "file://" else "package" if x[:10] == "package://" else "")
    if isinstance(x, bytes):
        return blank("bytes", s=x.hex(), l=len(x))
    if isinstance(x, array.array):
        return blank("array", items=[tag(y) for y in x])
    if isinstance(x, (list, tuple)):
        return blank("list" if isinstance(x, list) else "tuple", items=[tag(y) for y in x])
    if isinstance(x, dict):
        if k == "gtype":
            return gtag(x) or blank("gbad", s=json.dumps(x, sort_keys=True, default=str))
        ks = sorted(x, key=str)
        return blank("dict", keys=[str(y) for y in ks], items=[tag(x[y]) for y in ks])
    if isinstance(x, type):
        for kind, c in RT.items():
            if kind == "comp":
                continue
            try:
                if c._validate(x):
                    name = x.__module__.split(".")[0] + "/" + {"msg": "msg", "srv": "srv", "action": "action"}[kind] + "/" + x.__name__
                    return blank("rtype", rk=kind, s=name, mt=name)
            except Exception:
                pass
        return blank("class", s=x.__name__)
    if hasattr(x, "get_fields_and_field_types"):
        name = x.__module__.split(".")[0] + "/msg/" + type(x).__name__
        fs = sorted(x.get_fields_and_field_types())
        return blank("msg", s=name, mt=name, keys=fs, items=[tag(seq(getattr(x, f))) for f in fs])
    return blank(type(x).__name__, s=repr(x))


def seq(x):
    if type(x).__module__ == "numpy" or isinstance(x, array.array):
        return [y.item() if hasattr(y, "item") else y for y in x]
    return x


def plain(x):
    """Whether JSON keeps the value apart from others."""
    if isinstance(x, bool) or isinstance(x, (int, float, str)):
        return True
    if isinstance(x, list):
        return all(plain(y) for y in x)
    if isinstance(x, dict):
        return all(isinstance(k, str) and plain(y) for k, y in x.items())
    return False


def readable(t):
    if t["k"] in ("list", "dict"):
        return readable(t["elem"])
    if t["k"] in ("ref", "reflist", "refdict"):
        return t["of"] is not None and t["of"]["t"] == "gtype" and t["of"]["s"] in ("bool", "int", "float", "str")
    return t["k"] in ("bool", "int", "float", "str", "path", "name")


# --------------------------------------------------------------------------------------------- the slot under test

def state(c, k):
    has = bool(c.has_value())
    got = c.get_value()
    val = tag(got.unwrap(), k) if got.is_ok() else blank("none")
    if has != got.is_ok():
        val = blank("has_value and get_value disagree")
    return {"has": has, "val": val, "upd": bool(c.is_updated())}


def outcome(f):
    try:
        r = f()
    except Exception as e:
        return "raises " + type(e).__name__
    return "ok" if r is None or r.is_ok() else "err"


def do(c, op, x=None):
    if op == "set":
        return outcome(lambda: c.set_value(x))
    if op == "read":
        return outcome(lambda: c.deserialize_value(json.dumps(x)))
    return outcome({"drop": c.reset_value, "flag": c.flag_updated, "unflag": c.reset_updated}[op])


# --------------------------------------------------------------------------------------------- messages

IDS = {M.BOOL_TYPE: "bool", M.INT_TYPE: "int", M.FLOAT_TYPE: "float", M.STRING_TYPE: "str", M.PATH_TYPE: "path", M.BYTES_TYPE: "bytes",
       M.LIST_TYPE: "list", M.DICT_TYPE: "dict", M.GENERIC_TYPE: "gtype", M.ROS_INTERFACE_NAME: "name", M.ROS_INTERFACE_TYPE: "rtype",
       M.ROS_INTERFACE_VALUE: "msg", M.REFERENCE_TYPE: "ref", M.REFERENCE_LIST_TYPE: "reflist", M.REFERENCE_DICT_TYPE: "refdict"}
ROS = {M.ROS_UNDEFINED: "none", M.ROS_TOPIC: "msg", M.ROS_SERVICE: "srv", M.ROS_ACTION: "action", M.ROS_COMPONENT: "comp"}


def number(text, ident):
    if text == "":
        return []
    try:
        return [rank(int(text) if ident == "int" else float(text))]
    except (ValueError, OverflowError):
        return [-8]


def mrec(m):
    """BTMessages' record of a NodeDataType."""
    k = IDS.get(m.type_identifier, "unknown")
    vt = [IDS.get(x, "unknown") for x in m.value_type_identifier]
    leaf = vt[0] if k in ("list", "dict") and vt else k
    opt = list(m.serialized_value_options)
    if leaf == "gtype":
        opt = [json.loads(o)["type"] for o in opt]
    num = leaf in ("int", "float")
    return dict(tid=k, vt=vt, dyn=bool(m.allow_dynamic), sta=bool(m.allow_static), isSta=bool(m.is_static), opt=opt,
                lo=number(m.min_value, leaf) if num else [], hi=number(m.max_value, leaf) if num else [],
                smx=mx(m.string_max_length), imx=[mx(x) for x in m.iterable_max_length],
                istr=[bool(x) for x in m.iterable_strict_length], ref=m.reference_target,
                rk=("" if m.ros_interface_kind == M.ROS_UNDEFINED and leaf not in ("name", "rtype", "msg")
                    else ROS.get(m.ros_interface_kind, "none")), id=m.interface_id,
                mt=m.ros_msg_type if leaf == "msg" else "")


# --------------------------------------------------------------------------------------------- samples

def gmap(k, **kw):
    d = {kk: v for kk, v in D.GENERIC_TYPE_MAP[PY[k]].items()}
    d.update(kw)
    return d


def gval(d):
    g = tag(d, "gtype")
    g["py"] = d
    return g


def rval(cls):
    g = tag(cls)
    g["py"] = cls
    return g


def scalar_types():
    out = [ty("bool"), ty("int"), ty("int", lo=-1, hi=3), ty("int", lo=1, hi=2), ty("int", lo=-2, hi=-1), ty("int", hi=255), ty("int", lo=2, hi=2),
           ty("float"), ty("float", lo=0.5, hi=2.5), ty("float", lo=-3.5, hi=-0.5), ty("float", lo=1.5),
           ty("str"), ty("str", mx=2), ty("str", opt=["", "a", "bb"]), ty("str", opt=["a", "ccc"], mx=2), ty("str", opt=["a"]), ty("str", opt=["a", "b"]),
           ty("path"), ty("path", mx=9), ty("bytes"), ty("bytes", mx=3), ty("name", rk="msg"), ty("name", rk="srv", id=2), ty("name", rk="action")]
    return out


def type_types():
    return [ty("gtype"), ty("gtype", opt=["int", "list"]), ty("gtype", opt=["bool"]), ty("gtype", opt=["float", "str", "object"]),
            ty("rtype", rk="msg"), ty("rtype", rk="srv", id=1), ty("rtype", rk="action"), ty("rtype", rk="comp")]


def iter_types():
    i, f, s = ty("int", lo=0, hi=2), ty("float", lo=-0.5), ty("str", mx=1)
    out = []
    for k in ("list", "dict"):
        out += [ty(k, elem=ty("int")), ty(k, elem=i, mx=2), ty(k, elem=i, mx=2, strict=True), ty(k, elem=f, mx=1), ty(k, elem=s),
                ty(k, elem=ty("bool"), mx=0), ty(k, elem=ty("bool"), mx=1, strict=True), ty(k, elem=ty("bytes"))]
        for k2 in ("list", "dict"):
            out += [ty(k, elem=ty(k2, elem=i, mx=1), mx=2), ty(k, elem=ty(k2, elem=ty("str"), mx=2, strict=True))]
    out.append(ty("list", mx=2, elem=ty("dict", mx=1, elem=ty("list", mx=3, strict=True, elem=ty("float", lo=0.5, hi=2)))))
    return out


def ref_types():
    choices = [gval(gmap(k)) for k in ("bool", "int", "float", "str", "bytes", "list", "dict")]
    choices += [gval(gmap("int", min_value=0, max_value=2)), gval(gmap("str", max_length=1)), gval(gmap("list", element_type=gmap("int", min_value=1), max_length=2)),
                gval(gmap("object", ros_msg_type="std_msgs/msg/Int64")), rval(std.Bool), rval(std.Int64)]
    out = []
    for i, g in enumerate(choices):
        out.append(ty("ref", ref="target", of=g))
        if i not in (4, 5):
            out.append(ty("reflist" if i % 2 else "refdict", ref="target", of=g, sta=i % 3 == 0))
    return out


def msg_types():
    return [ty("msg", mt=m) for m in MSGS if m in ("std_msgs/msg/Bool", "std_msgs/msg/Int64", "std_msgs/msg/String", "std_msgs/msg/Header",
                                                   "geometry_msgs/msg/Point", "geometry_msgs/msg/Pose", "geometry_msgs/msg/Polygon",
                                                   "std_msgs/msg/Byte", "std_msgs/msg/ColorRGBA", "std_msgs/msg/MultiArrayDimension")]


def all_types():
    return scalar_types() + type_types() + iter_types() + ref_types() + msg_types()


SCALARS = [True, False, 0, 1, 2, 3, -1, 0.5, 1.0, 1.5, "", "a", "bb", b"\x00", b"ab"]


def resolved(t):
    """A description with the references followed, to choose values only."""
    if t["k"] in ("ref", "reflist", "refdict"):
        e = chosen(t["of"])
        return e if t["k"] == "ref" else ty("list" if t["k"] == "reflist" else "dict", elem=e)
    return t


def chosen(g):
    if g["t"] == "rtype":
        return ty("msg", mt=g["mt"])
    d = g["py"]
    s = g["s"]
    if s == "object":
        return ty("msg", mt=d["ros_msg_type"])
    if s in ("list", "dict"):
        return ty(s, mx=d["max_length"], strict=d["strict_length"], elem=chosen(gval(d["element_type"])))
    return ty(s, lo=d.get("min_value"), hi=d.get("max_value"), mx=d.get("max_length"))


def random_msg(rng, cls):
    """A message with random field values of the right types."""
    m = cls()
    for f, ft in cls.get_fields_and_field_types().items():
        setattr(m, f, random_field(rng, ft))
    return m


def random_field(rng, ft):
    import re
    from rosidl_runtime_py.utilities import get_message
    a = re.match(r"sequence<(.*)>$", ft)
    if a:
        inner = a.group(1).split(",")[0]
        return [random_field(rng, inner) for _ in range(rng.randrange(3))]
    a = re.match(r"(.*)\[(\d+)\]$", ft)
    if a:
        return [random_field(rng, a.group(1)) for _ in range(int(a.group(2)))]
    if "/" in ft:
        return random_msg(rng, get_message(ft))
    if ft == "boolean":
        return rng.random() < 0.5
    if ft == "octet":
        return rng.choice([b"\x00", b"\x07", b"\xff"])
    if ft.startswith("string"):
        return rng.choice(["", "a", "frame", "\u00e4\"\\"])
    if "int" in ft:
        lo, hi = INT_LIMITS[ft]
        return rng.choice([0, 1, 7, lo, hi])
    return rng.choice([0.0, 0.5, 1.5, -2.0])


def values(t, rng, n=9):
    """Values around the limits of a type, admitted and refused ones."""
    t = resolved(t)
    k = t["k"]
    near = []
    if k == "bool":
        near = [True, False]
    elif k == "int":
        lo, hi = t["lo"], t["hi"]
        lo, hi = -2**63 if lo is None else lo, 2**64 - 1 if hi is None else hi
        near = [x for x in (lo - 1, lo, hi, hi + 1, 0, 1) if x in RANK] + [BIG, -BIG]
    elif k == "float":
        lo, hi = t["lo"], t["hi"]
        near = [x for x in (lo, hi) if x is not None] + [float("inf"), float("-inf"), BIG, -BIG, 1, 2, 1.5, -0.5, 2.5, 0.5, -2, -3.5, True]
    elif k in ("str", "name"):
        near = ["", "a", "bb", "ccc", "/foo"]
    elif k == "path":
        near = ["", "a", "file://", "file://a", "file://aaaa", "package://a", "FILE://a"]
    elif k == "bytes":
        near = [b"", b"a", b"ab", b"abcd", b"\x00", "a"]
    elif k == "gtype":
        near = [gmap(x) for x in PY] + [gmap("int", min_value=0, max_value=3), {}, {"type_identifier": 99}, {"type_identifier": M.INT_TYPE},
                                        gmap("list", element_type=gmap("int")), gmap("list", element_type=gmap("list", element_type=gmap("str"))), gmap("dict", element_type={})]
        rng.shuffle(near)
    elif k == "rtype":
        near = [std.Bool, std.Int64, std_srv.Trigger, std_srv.SetBool, exa.Fibonacci, int, "std_msgs/msg/Bool"]
    elif k == "msg":
        near = [random_msg(rng, MSGS[t["mt"]]) for _ in range(4)] + [MSGS[t["mt"]](), std.Bool(data=True), std.Empty(), {}, MSGS[t["mt"]]]
    elif k in ("list", "dict"):
        ev = [x for x in values(t["elem"], rng, 7) if not isinstance(x, array.array)]
        sizes = [0, 1, 2, 3] if t["mx"] is None or t["mx"] > 5 else sorted({0, t["mx"], t["mx"] + 1, max(0, t["mx"] - 1)})
        from_ = ev
        good = [x for x in ev if roughly(t["elem"], x)] or ev
        for s in sizes * 2 + [2, 2]:
            src = good if rng.random() < 0.75 else from_
            xs = [rng.choice(src) for _ in range(s)]
            if k == "dict":
                ks = rng.sample(["a", "b", "c", "d", "e", 1, 2], len(xs)) if len(xs) < 7 else []
                near.append(dict(zip(ks, xs)))
            else:
                near.append(xs)
        if k == "list" and t["elem"]["k"] == "int":
            near.append(array.array("q", [1, 2][: sizes[-1] or 1]))
        near += [(), [] if k == "dict" else {}]
    out = []
    for x in near:
        if not any(same(x, y) for y in out):
            out.append(x)
    keep = out[:n] if k in ("path",) or len(out) <= n else rng.sample(out, n)
    return keep + rng.sample(SCALARS, 2)


def same(x, y):
    return type(x) is type(y) and repr(x) == repr(y)


def roughly(t, x):
    k = t["k"]
    if k in ("list", "dict"):
        return isinstance(x, PY[k]) and len(x) <= (99 if t["mx"] is None else t["mx"]) and (not t["strict"] or len(x) == t["mx"])
    if k == "bool":
        return isinstance(x, bool)
    if k in ("int", "float"):
        return isinstance(x, (int, float) if k == "float" else int) and not isinstance(x, bool) and \
            (t["lo"] is None or x >= t["lo"]) and (t["hi"] is None or x <= t["hi"])
    if k == "str":
        return isinstance(x, str) and (t["mx"] is None or len(x) <= t["mx"]) and (t["opt"] is None or x in t["opt"])
    if k == "bytes":
        return isinstance(x, bytes) and len(x) <= (1 if t["mx"] is None else t["mx"])
    return True


def random_type(rng, depth=0):
    k = rng.choice(["bool", "int", "float", "str", "str", "path", "bytes"] + (["list", "dict"] * 3 if depth < 2 else []))
    fl = rng.choice([dict(), dict(), dict(isSta=False), dict(sta=False), dict(dyn=False)])
    if k in ("int", "float"):
        xs = [x for x in NUMBERS if abs(x) != BIG and (isinstance(x, int) or k == "float")]
        xs = [x for x in xs if -10 <= x <= 300] if rng.random() < 0.8 else [x for x in xs if x not in (float("inf"), float("-inf"), 2**64, -2**63 - 1)]
        a, b = sorted([rng.choice(xs), rng.choice(xs)])
        if k == "float":
            a, b = float(a), float(b)
        return ty(k, lo=rng.choice([a, None]), hi=rng.choice([b, None]), **fl)
    if k in ("str", "path"):
        opt = rng.choice([None, None, rng.sample(["", "a", "bb", "ccc", "file://", "file://a"], rng.randrange(1, 4))])
        return ty(k, mx=rng.choice([None, 0, 1, 2, 9]), opt=opt, **fl)
    if k == "bytes":
        return ty(k, mx=rng.choice([None, 0, 2]), **fl)
    if k in ("list", "dict"):
        m = rng.choice([None, 0, 1, 2, 3])
        return ty(k, mx=m, strict=m is not None and rng.random() < 0.4, elem=random_type(rng, depth + 1), **fl)
    return ty(k, **fl)
