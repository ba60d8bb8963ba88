"""C10: what may be wired to what.

TLC checks the rules for compatibility on all pairs and triples of sample types (WireMC).  The real code is asked about every pair of types,
real nodes of these types are wired and values sent along every accepted wire (WireTrace), and the wire and unwire requests of the editing
model and of random histories are judged by EditTrace.
"""

import contextlib
import json
import os
import random
import tempfile
import uuid

import check_edit as CE
import check_kernel as CK
import edit as E
import editnodes as EN
import slots as S
import tlc
import wirenodes
from pool import Pool, Refusal
from common import SEED, THOROUGH
from ros_bt_py.node import Leaf, define_bt_node
from ros_bt_py.node_config import NodeConfig
from ros_bt_py.helpers import BTNodeState
from ros_bt_py.tree_edit_manager import TreeEditManager
from ros_bt_py.vendor.result import Ok
from ros_bt_py_interfaces.msg import NodeDataLocation, NodeIO, NodeStructure, TreeStructure, Wiring
from ros_bt_py_interfaces.srv import LoadTree, WireNodeData
from slots import D

REFS = ("ref", "reflist", "refdict")


def describe(t):
    from check_slots import describe as d
    return d(t)


def fed(t, **kw):
    """The type as that of something that is given at run time."""
    return dict(t, **{**dict(dyn=True, sta=False, isSta=False), **kw})


def types():
    return [t for t in S.all_types() if t["k"] not in ("gtype", "rtype")]


def samples(ta, tb, rng, n=8):
    return S.values(tb, rng, n) + S.values(ta, rng, 4)


def model(check, ts, rng):
    path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
    with open(path, "w") as f:
        json.dump([{"type": S.rec(fed(t)), "vals": [S.tag(v, S.resolved(t)["k"]) for v in S.values(t, rng, 12)]} for t in ts], f)
    res = tlc.run("WireMC", env={"CASES": path}, heap="3g")
    os.unlink(path)
    if not res.ok:
        raise RuntimeError("the specification violates its own properties:\n" + res.out[-3000:])
    check.add(states=res.distinct, transitions=res.states)


def compat(args):
    seed, share, of, n = args
    rng = random.Random(seed)
    ts = S.all_types()
    pairs = [(a, b) for i, a in enumerate(ts) for j, b in enumerate(ts) if (i + j) % of == share]
    for _ in range(n):
        a = S.random_type(rng)
        pairs.append((a, a if rng.random() < 0.2 else near(a, rng) if rng.random() < 0.8 else S.random_type(rng)))
    out = []
    for a, b in pairs:
        x = {"e": "compat", "a": S.rec(a), "b": S.rec(b), "same": a is b, "what": f"{describe(a)} fed by {describe(b)}", "vals": []}
        try:
            x["r"] = "yes" if S.build(a).get_runtime_type().is_compatible(S.build(b).get_runtime_type()) else "no"
        except Exception as e:
            x["r"] = f"raises {type(e).__name__}"
        if x["r"] == "yes":
            x["vals"] = [S.tag(v, S.resolved(b)["k"]) for v in samples(a, b, rng)]
        out.append(x)
    for i, t in enumerate(ts + [S.random_type(rng) for _ in range(n // 10)]):
        if i < len(ts) and i % of != share or t["k"] in REFS:
            continue
        t = dict(t, dyn=True, sta=True, isSta=True) if t["k"] not in ("gtype", "rtype") else t
        for f in (dict(), dict(isSta=False), dict(sta=False, isSta=False), dict(dyn=False, isSta=True)):
            if t["k"] not in ("gtype", "rtype") or f == {}:
                out.append(back(dict(t, **f)))
    return out


def back(t):
    """A type against itself as read from its message."""
    x = {"e": "compat", "a": S.rec(t), "b": S.rec(t), "same": True, "what": f"{describe(t)} fed by the same read from a message", "vals": []}
    try:
        c = S.build(t)
        x["r"] = "yes" if c.is_compatible(D.get_iotype_for_msg(c.serialize_type()).unwrap()) else "no"
    except Exception as e:
        x["r"] = f"raises {type(e).__name__}"
    return x


def near(t, rng):
    """A type that differs a little."""
    t = dict(t)
    if t["k"] in ("list", "dict") and rng.random() < 0.6:
        t["elem"] = near(t["elem"], rng)
        return t
    if t["k"] == "int":
        lo, hi = (-2**63 if t["lo"] is None else t["lo"]), (2**64 - 1 if t["hi"] is None else t["hi"])
        if rng.random() < 0.5:
            t["lo"] = rng.choice([x for x in S.NUMBERS if isinstance(x, int) and -2**63 <= x <= hi])
        else:
            t["hi"] = rng.choice([x for x in S.NUMBERS if isinstance(x, int) and lo <= x < 2**64])
    elif t["k"] == "float":
        lo, hi = (-S.FMAX if t["lo"] is None else t["lo"]), (S.FMAX if t["hi"] is None else t["hi"])
        fs = [float(x) for x in (-3.5, -2, -1, -0.5, 0, 0.5, 1, 1.5, 2, 2.5)]
        if rng.random() < 0.5:
            t["lo"] = rng.choice([x for x in fs if x <= hi] or [t["lo"]])
        else:
            t["hi"] = rng.choice([x for x in fs if x >= lo] or [t["hi"]])
    elif t["k"] in ("str", "path", "bytes", "list", "dict"):
        if t["k"] in ("list", "dict") and rng.random() < 0.4:
            t["strict"] = not t["strict"] and t["mx"] is not None
        else:
            t["mx"] = rng.choice([1, 2, 3]) if t["k"] == "bytes" or t["strict"] else rng.choice([1, 2, 3, None])
    return t


# ---------------------------------------------------------------------------------------- real wires

def make(name, t, target):
    """A node class with one input or output of the type, and its message."""
    ref = t["k"] in REFS
    bare = dict(t, of=None)
    conf = {}
    ios = []
    if ref:
        g = t["of"]
        kind = (lambda v: S.RT[g["rk"]](value=v)) if g["t"] == "rtype" else (lambda v: D.GenericType(value=v))
        conf["target"] = kind(None)
        c = kind(g["py"])
        ios.append(NodeIO(key="target", type=c.serialize_type(), serialized_value=c.serialize_value()))
    if target:
        loose = dict(bare, dyn=True, sta=t["sta"], isSta=t["sta"])
        conf["a"] = S.build(loose)
        ios.append(NodeIO(key="a", type=S.build(dict(bare)).serialize_type(), serialized_value="null"))
        nc = NodeConfig(inputs=conf, outputs={}, max_children=0)
    else:
        nc = NodeConfig(inputs=conf, outputs={"o": S.build(fed(bare))}, max_children=0)
    cls = type(name, (wirenodes.Wired,), {"__module__": "wirenodes"})
    setattr(wirenodes, name, define_bt_node(nc)(cls))
    return NodeStructure(module="wirenodes", node_class=name, name=name, node_id=str(uuid.uuid4()), max_children=0, inputs=ios)


VARIANTS = [dict(sta=False, isSta=False), dict(sta=True, isSta=False), dict(sta=True, isSta=True)]


def wires(args):
    seed, share, of, extra = args
    rng = random.Random(seed)
    ts = types()
    more = [t for t in (S.random_type(rng) for _ in range(extra)) if t["k"] not in ("gtype", "rtype")]
    more += [near(t, rng) for t in more for _ in range(3)]
    targets = [(f"T{i}", t) for i, t in enumerate(ts)] + [(f"R{i}", t) for i, t in enumerate(more)]
    sources = [(f"S{i}", fed(t)) for i, t in enumerate(ts)] + [(f"Q{i}", fed(t)) for i, t in enumerate(more)]
    targets = [(n, dict(t, dyn=True, **VARIANTS[0 if t["k"] in REFS else rng.choices([0, 1, 2], [6, 3, 1])[0]])) for i, (n, t) in enumerate(targets) if i % of == share or n[0] == "R"]
    out = []
    with contextlib.redirect_stdout(E.NOWHERE):
        ms, mt = [make(n, t, False) for n, t in sources], [make(n, t, True) for n, t in targets]
        flow = NodeStructure(module="editnodes", node_class="Flow", name="root", node_id=str(uuid.uuid4()), max_children=-1, child_ids=[x.node_id for x in ms + mt])
        m = TreeEditManager(ros_node=E.ros())
        r = m.load_tree(LoadTree.Request(tree=TreeStructure(name="t", nodes=[flow] + ms + mt, root_id=flow.node_id, tick_frequency_hz=10.0)), LoadTree.Response())
        if not r.success:
            raise Refusal("a valid tree is not loaded: " + r.error_message)
        of_id = {str(k): v for k, v in m.nodes.items()}
        for n in of_id.values():
            if n.name != "root":
                n.setup()
        for (sn, ts_), s in zip(sources, ms):
            for (tn, tt), g in zip(targets, mt):
                if sn[0] == "Q" and tn[0] != "R" or sn[0] == "S" and tn[0] == "R":
                    continue
                if sn[0] == "Q" and int(sn[1:]) % max(extra, 1) != int(tn[1:]) % max(extra, 1) and rng.random() < 0.9:
                    continue
                out.append(wire(m, of_id, ts_, s, tt, g, rng))
    return out


def wire(m, of_id, ta_s, s, ta_t, g, rng):
    src, dst = of_id[s.node_id], of_id[g.node_id]
    w = Wiring(source=NodeDataLocation(node_id=s.node_id, data_kind="outputs", data_key="o"),
               target=NodeDataLocation(node_id=g.node_id, data_kind="inputs", data_key="a"))
    plain = {k: v for k, v in ta_t.items() if k not in ("sta", "isSta", "dyn")} == {k: v for k, v in ta_s.items() if k not in ("sta", "isSta", "dyn")}
    x = {"e": "wire", "a": S.rec(ta_t), "b": S.rec(ta_s), "same": plain and not ta_t["sta"], "deliv": [], "off": "", "left": False,
         "what": f"wire {describe(ta_s)} to {describe(ta_t)}"}

    def ask(f):
        try:
            r = f(WireNodeData.Request(wirings=[w]), WireNodeData.Response())
            return "ok" if r.success else "fail"
        except Exception as e:
            return f"raises {type(e).__name__}"

    def there():
        m.publish_structure()
        return any(y.source.node_id == s.node_id and y.target.node_id == g.node_id for y in m.structure_to_msg().data_wirings)
    x["r"] = ask(m.wire_data)
    x["there"] = there() if x["r"] == "ok" or rng.random() < 0.1 else False
    if x["r"] != "ok":
        return x
    m.data_flow_manager.initialize(m.nodes, m.wirings)
    k = S.resolved(ta_s)["k"]
    for v in samples(ta_t, ta_s, rng, 6):
        dst.clear()
        src.clear()
        src.say = [v]
        d = {"val": S.tag(v, k), "py": repr(v)[:80]}
        try:
            src.untick()
            r = src.tick()
            d["push"] = "ok" if r.is_ok() and r.unwrap() == BTNodeState.SUCCEEDED else "err"
        except Exception as e:
            d["push"] = f"raises {type(e).__name__}"
            src.said = "raises"
        d["set"] = src.said
        got = dst.inputs.get_value("a")
        d["has"] = got.is_ok()
        d["got"] = S.tag(got.unwrap(), S.resolved(ta_t)["k"]) if got.is_ok() else S.blank("none")
        x["deliv"].append(d)
    x["off"] = ask(m.unwire_data)
    x["left"] = there()
    return x


def requests(check, pool):
    """Wire and unwire requests in the states of the editing model and in random histories."""
    jobs = [(n, SEED + k, (1, 0), 1500 if not THOROUGH else 200000) for k, n in enumerate(("wires", "kinds", "swap", "load"))]
    results = pool.map(CE.work, jobs)
    rec = pool.map(CE.record, [(SEED * 1000 + 500 + i, 12 if not THOROUGH else 400, 40) for i in range(8)])
    bad = []
    for r in results:
        if r["model"]:
            raise RuntimeError("the specification violates its own properties:\n" + r["model"][-4000:])
        check.add(states=r["states"], transitions=r["transitions"], steps_replayed=r["steps"], transitions_replayed=r["covered"])
        bad += r["bad"]
    mine = lambda s: s["op"]["k"] in ("wire", "unwire")
    bad = [b for b in bad if mine(b["trace"]["steps"][-1])]
    table = E.plain_pool().table
    for n, i, v in CE.judge([(table, [b["trace"] for b in bad])]) if bad else []:
        for why in v[2]:
            check.violation(f"{bad[i]['ops'][-1]['k']}: {' '.join(why[1:])} ({bad[i]['trace']['steps'][-1]['r']})", bad[i])
    check.add(traces_validated_against_impl=sum(len(t) for _, t in rec), wire_requests=sum(mine(s) for _, t in rec for x in t for s in x["steps"]))
    for n, i, v in CE.judge(rec):
        tr = rec[n][1][i]
        s = tr["steps"][v[1] - 1]
        if mine(s):
            for why in v[2]:
                check.violation(f"{s['op']['k']}: {' '.join(why[1:])} ({s['r']})", {"init": tr["init"], "steps": tr["steps"][:v[1]], "verdict": v})


def run(check):
    rng = random.Random(SEED)
    ts = types() + [S.random_type(rng) for _ in range(60 if not THOROUGH else 300)]
    model(check, [t for t in ts if t["k"] not in ("gtype", "rtype")], rng)
    with Pool(8) as pool:
        xs = [x for r in pool.map(compat, [(SEED * 1700 + i, i, 8, 500 if not THOROUGH else 6000) for i in range(8)]) for x in r]
        ws = [x for r in pool.map(wires, [(SEED * 1800 + i, i, 8, 12 if not THOROUGH else 120) for i in range(8)]) for x in r]
        check.add(pairs_compared=len(xs), wires_requested=len(ws), wires_accepted=sum(x["r"] == "ok" for x in ws),
                  values_sent=sum(len(x["deliv"]) for x in ws), traces_validated_against_impl=len(xs) + len(ws))
        check.sample({k: v for k, v in next((x for x in ws if x["r"] == "ok"), ws[0]).items() if k in ("what", "r", "deliv")})
        allx = xs + ws
        for i, v in CK.validate("WireTrace", allx, check):
            check.violation(f"{allx[i]['what']}: {v[1]} {json.dumps(v[2:])[:400]}", {"fact": allx[i], "verdict": v})
        requests(check, pool)
    check.assumptions += ["compatibility is refuted with sample values around the limits of both types", "numbers are compared by rank"]
