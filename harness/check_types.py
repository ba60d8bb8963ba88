"""C11: types and values written to messages and read back; the rules for compatibility (used by C10).

TLC checks on BTMessages that reading inverts writing for the sample types; facts recorded from the real code are
judged by TypeTrace.
"""

import json
import os
import random
import tempfile

import check_kernel as CK
import slots as S
import tlc
from pool import Pool
from common import SEED, THOROUGH
from slots import D, M

REFS = ("ref", "reflist", "refdict")


def deref(t):
    return dict(t, of=None)


def read(m):
    try:
        r = D.get_iotype_for_msg(m)
    except Exception as e:
        return "raises " + type(e).__name__, None
    return ("ok", r.unwrap()) if r.is_ok() else ("err", None)


def probe(c, t, vals):
    """Offers values to the slot; it is set up as if nothing was assigned yet."""
    out = []
    k = t["k"]
    for v in vals:
        c.reset_updated()
        out.append({"val": S.tag(v, k), "r": S.do(c, "set", v), "py": repr(v)[:80]})
    return out


def describe(t):
    from check_slots import describe as d
    return d(t)


def type_fact(t, rng):
    c = S.build(t)
    m = c.serialize_type()
    r, back = read(m)
    x = {"e": "type", "type": S.rec(t), "m": S.mrec(m), "r": r, "what": describe(t), "probes": []}
    if back is not None:
        x["m2"] = S.mrec(back.serialize_type())
        if t["k"] not in REFS:
            x["probes"] = probe(back, t, S.values(t, rng, 6))
    return x


def bound_fact(t, rng):
    """The message of a reference that was bound describes the same reference."""
    c = S.build(t)
    m = c.serialize_type()
    r, back = read(m)
    x = {"e": "msg", "m": S.mrec(m), "r": r, "probes": [], "what": "bound " + describe(t)}
    if back is not None:
        x["m2"] = S.mrec(back.serialize_type())
    return x


def random_message(rng):
    """A type message that may describe nothing valid."""
    if rng.random() < 0.7:
        t = S.random_type(rng) if rng.random() < 0.7 else rng.choice(S.all_types())
        m = S.build(deref(t) if t["k"] in REFS else t).serialize_type()
    else:
        m = M()
    for _ in range(rng.randrange(0 if m.type_identifier else 1, 4)):
        w = rng.randrange(12)
        if w == 0:
            m.type_identifier = rng.choice(list(range(17)) + [255])
        elif w == 1:
            m.allow_dynamic = not m.allow_dynamic
        elif w == 2:
            m.allow_static = not m.allow_static
        elif w == 3:
            m.is_static = not m.is_static
        elif w == 4:
            m.min_value = rng.choice(["", "x", "0", "3", "0.5", "-1"])
        elif w == 5:
            m.max_value = rng.choice(["", "x", "0", "3", "2.5", "-1", "255"])
        elif w == 6:
            m.value_type_identifier = [rng.choice([1, 2, 3, 4, 5, 6, 7, 99]) for _ in range(rng.randrange(3))]
        elif w == 7:
            m.iterable_max_length = [rng.randrange(4) for _ in range(rng.randrange(4))]
        elif w == 8:
            m.iterable_strict_length = [rng.random() < 0.5 for _ in range(rng.randrange(4))]
        elif w == 9:
            m.ros_interface_kind = rng.choice([0, 1, 2, 3, 4, 9])
        elif w == 10:
            m.ros_msg_type = rng.choice(["", "std_msgs/msg/Bool", "std_msgs/msg/Nope", "nonsense", "a/b/c/d", "std_srvs/srv/Trigger_Request"])
        else:
            m.string_max_length = rng.choice([0, 1, 2])
    if m.type_identifier == M.GENERIC_TYPE or M.GENERIC_TYPE in list(m.value_type_identifier):
        if not (m.type_identifier == M.GENERIC_TYPE and rng.random() < 0.7):
            m.serialized_value_options = rng.choice([[], ["x"], ["{}"], ["[]"], ["1"], ['{"type": 3}'], ['{"type": "int"}']])
    return m


def clear_cut(m):
    """Whether BTMessages says what the message describes (otherwise only raising is judged)."""
    if m.type_identifier in (M.GENERIC_TYPE, M.ROS_INTERFACE_VALUE):
        return False
    if m.type_identifier == M.ROS_INTERFACE_TYPE and m.ros_interface_kind not in (1, 2, 3, 4):
        return False
    leaf = m.value_type_identifier[0] if m.type_identifier in (5, 6) and m.value_type_identifier else m.type_identifier
    k = S.IDS.get(leaf, "unknown")
    if k == "bytes" and m.serialized_value_options:
        return False
    if m.type_identifier in (5, 6):
        n = len(m.value_type_identifier)
        if len(m.iterable_max_length) != n or len(m.iterable_strict_length) != n or not all(x in (5, 6) for x in m.value_type_identifier[1:]):
            return False
        if k in ("gtype", "rtype", "msg", "name", "unknown", "list", "dict") or k in REFS:
            return False
    if k in ("int", "float"):
        for x in (m.min_value, m.max_value):
            n = S.number(x, k)
            if n and n[0] == -7:
                return False
    return k in ("bool", "int", "float", "str", "path", "bytes", "name", "rtype", "list", "dict") + REFS


def msg_fact(rng):
    m = random_message(rng)
    r, back = read(m)
    x = {"e": "msg", "r": r, "probes": [], "what": "message " + str(m)[:600], "m2": []}
    if not clear_cut(m):
        x["e"] = "type" if r.startswith("raises") else "skip"
        x["type"] = {}
        return x
    x["m"] = S.mrec(m)
    if back is not None:
        x["m2"] = S.mrec(back.serialize_type())
        if m.type_identifier in (1, 2, 3, 4, 7):
            x["probes"] = probe(back, {"k": S.IDS[m.type_identifier]}, [True, 0, 1, 3, -1, 0.5, 2.5, "", "a", "bb", "file://a", b"", b"a", b"ab", [], {}])
    return x


FIELDS = {"boolean": S.ty("bool"), "octet": S.ty("bytes"), "string": S.ty("str"), "wstring": S.ty("str"), "string<3>": S.ty("str", mx=3),
          "float": S.ty("float", lo=S.FLOAT_LIMITS["float"][0], hi=S.FLOAT_LIMITS["float"][1]), "double": S.ty("float"),
          "std_msgs/Bool": S.ty("msg", mt="std_msgs/msg/Bool"), "geometry_msgs/Point": S.ty("msg", mt="geometry_msgs/msg/Point")}
for _n, (_a, _b) in S.INT_LIMITS.items():
    FIELDS[_n] = S.ty("int", lo=_a, hi=_b)
for _n in list(FIELDS):
    if _n != "string<3>" and _n != "wstring":
        FIELDS[f"sequence<{_n}>"] = S.ty("list", elem=FIELDS[_n])
        FIELDS[f"sequence<{_n}, 2>"] = S.ty("list", elem=FIELDS[_n], mx=2)
        FIELDS[f"{_n}[2]"] = S.ty("list", elem=FIELDS[_n], mx=2, strict=True)


def field_fact(name, t, rng):
    x = {"e": "field", "type": S.rec(t), "m": [], "probes": [], "what": "field " + name}
    try:
        r = D.get_message_field_io_type(name)
        x["r"] = "ok" if r.is_ok() else "err"
        if r.is_ok():
            c = r.unwrap()
            x["m"] = S.mrec(c.serialize_type())
            x["probes"] = probe(c, t, S.values(t, rng, 6))
    except Exception as e:
        x["r"] = "raises " + type(e).__name__
    return x


def value_fact(t, v):
    """None if the slot does not take the value."""
    k = S.resolved(t)["k"]
    a = S.build(t)
    a.reset_updated()
    if S.do(a, "set", v) != "ok":
        return None
    b = S.build(t)
    x = {"e": "value", "type": S.rec(t), "val": S.tag(a.get_value().unwrap(), k), "what": f"{describe(t)} value {v!r:.300}", "back": []}
    try:
        text = a.serialize_value()
        r = b.deserialize_value(text)
        x["r"] = "ok" if r.is_ok() else "err " + str(r.unwrap_err())[:200]
        x["back"] = S.tag(b.get_value().unwrap(), k)
    except Exception as e:
        x["r"] = "raises " + type(e).__name__ + " " + str(e)[:200]
    return x


TEXTS = ["", " ", "x", "[", "{", "}", '"', "'a'", "nul", "tru", "[1,]", "{1: 2}", '{"a": }', "[[", '["a"', "\\", "\0", "--1", "1 2", '"\\ud800"', "[" * 5000,
         "1" * 400, "-" + "1" * 400, "1" * 5000, "[" + "1" * 5000 + "]", '{"a": ' + "1" * 5000 + "}", "[" + "1" * 400 + "]", "1e400", "[1e400]", '{"a": [1e400]}', "null", "[null]", '{"a": null}', "1e5000"]


def text_fact(t, text):
    """A text is read that may be no value."""
    a = S.build(t)
    a.reset_updated()
    k = S.resolved(t)["k"]
    x = {"e": "text", "what": f"{describe(t)} text {text[:40]!r} ({len(text)} characters)", "json": True}
    try:
        json.loads(text)
    except (ValueError, RecursionError):
        x["json"] = False
    before = S.state(a, k)
    x["r"] = S.outcome(lambda: a.deserialize_value(text))
    x["same"] = S.state(a, k) == before
    return x


def compat_fact(ta, tb):
    a, b = S.build(ta), S.build(tb)
    x = {"e": "compat", "a": S.rec(ta), "b": S.rec(tb), "same": ta is tb, "must": False, "what": f"{describe(ta)} fed by {describe(tb)}"}
    try:
        x["r"] = "yes" if a.get_runtime_type().is_compatible(b.get_runtime_type()) else "no"
    except Exception as e:
        x["r"] = "raises " + type(e).__name__
    return x


def work(args):
    seed, n = args
    rng = random.Random(seed)
    out = []
    ts = S.all_types()
    share = [t for i, t in enumerate(ts) if i % 16 == seed % 16]
    for t in share:
        if t["k"] in REFS:
            out.append(type_fact(deref(t), rng))
            out.append(bound_fact(t, rng))
        else:
            for f in (dict(), dict(isSta=False), dict(sta=False, isSta=False), dict(dyn=False, isSta=True)):
                if t["k"] in ("gtype", "rtype") and (f.get("sta") is False or f.get("isSta") is False):
                    continue
                out.append(type_fact(dict(t, **f), rng))
        for v in S.values(t, rng, 12):
            out.append(value_fact(t, v))
        out += [text_fact(t, x) for x in TEXTS]
    for i, (name, t) in enumerate(sorted(FIELDS.items())):
        if i % 16 == seed % 16:
            out.append(field_fact(name, t, rng))
    for mt, cls in S.MSGS.items():
        for _ in range(1 + n // 40):
            out.append(value_fact(S.ty("msg", mt=mt), S.random_msg(rng, cls)))
    for _ in range(n):
        t = S.random_type(rng)
        out.append(type_fact(t, rng))
        for v in S.values(t, rng, 8):
            out.append(value_fact(t, v))
        for _ in range(3):
            out.append(msg_fact(rng))
    return [x for x in out if x is not None]


def facts(check, pool, fn, jobs):
    xs = [x for r in pool.map(fn, jobs, 1) for x in r]
    skip = sum(x["e"] == "skip" for x in xs)
    xs = [x for x in xs if x["e"] != "skip"]
    check.add(traces_validated_against_impl=len(xs), messages_only_checked_for_an_answer=skip)
    for x in xs[:3]:
        check.sample({k: v for k, v in x.items() if k != "type"})
    for i, v in CK.validate("TypeTrace", xs, check):
        check.violation(f"{xs[i]['what']}: {v[1]} {json.dumps(v[2:])[:400]}", {"fact": xs[i], "verdict": v})


def model(check, ts):
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump([S.rec(t) for t in ts], f)
    res = tlc.run("TypeMC", env={"CASES": path}, heap="2g")
    os.unlink(path)
    if not res.ok:
        raise RuntimeError("the specification violates its own properties:\n" + res.out[-3000:])
    check.add(states=res.distinct, transitions=res.states)


def run(check):
    rng = random.Random(SEED)
    ts = [deref(t) if t["k"] in REFS else t for t in S.all_types()]
    ts += [S.random_type(rng) for _ in range(300)]
    model(check, ts)
    with Pool(8) as pool:
        facts(check, pool, work, [(SEED * 1600 + i, 250 if THOROUGH else 40) for i in range(16)])
    check.assumptions += ["numbers are compared by rank", "not-a-number values are not tried"]
