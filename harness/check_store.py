"""C25: stored trees. See BTStore.

The code under test decides where files are written: it runs as an unprivileged user that owns nothing but a scratch folder."""

import json
import os
import random
import shutil
import tempfile

import boot
import protocols as P
import tlc
from common import SEED, THOROUGH
from pool import Pool

boot.load()
import yaml  # noqa: E402
import rosidl_runtime_py  # noqa: E402
from ros_bt_py.package_manager import PackageManager  # noqa: E402
from ros_bt_py_interfaces.msg import NodeIO, NodeStructure, TreeStructure  # noqa: E402
from ros_bt_py_interfaces.srv import GetFolderStructure, SaveTree  # noqa: E402

NOBODY = 65534
DEEP = 3        # the folders lie this deep below the scratch folder, out of which nothing of ours leads


def fall():
    """Gives up all privileges, for good."""
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    if os.getuid() == 0 or os.access("/etc/passwd", os.W_OK):
        raise RuntimeError("the privileges cannot be given up")


def tree(c):
    return TreeStructure(name=["plain", "ü: 'quoted'", "", "a\nb", "- x", "{y}"][c % 6] + f" {c}", path=f"file:///where{c}", tick_frequency_hz=0.1 * c,
                         nodes=[NodeStructure(name=f"n{i}", module="m", node_class="C", node_id=str(i), inputs=[NodeIO(key="k", serialized_value=json.dumps({"v": [c, "é", None]}))])
                                for i in range(c % 3)], root_id="0")


def text(c):
    t = tree(c)
    t.path = ""
    return repr(t)


class World:
    def __init__(self, where, rng):
        self.rng = rng
        self.base = tempfile.mkdtemp(dir=where)
        self.top = os.path.join(self.base, *"xyz"[:DEEP])
        os.makedirs(self.top)
        self.trees = {}
        store = [self.path(["store"]), self.path(["more", "deep"])]
        os.makedirs(store[0])
        os.makedirs(store[1])
        self.m = PackageManager(store)

    def path(self, p):
        return os.path.join(self.top, *p)

    def close(self):
        for d, ds, fs in os.walk(self.base):
            os.chmod(d, 0o755)
        shutil.rmtree(self.base)

    def fill(self, fs):
        for d in sorted(fs["dirs"], key=len):
            os.makedirs(self.path(d), exist_ok=True)
        for f in fs["files"]:
            with open(self.path(f["p"]), "w") as h:
                h.write("version: 1.0.0\n" + rosidl_runtime_py.message_to_yaml(self.saved(f["c"])))
        for d in fs["ro"]:
            os.chmod(self.path(d), 0o555)

    def saved(self, c):
        t = tree(c)
        t.path = ""
        self.trees[repr(t)] = c
        return t

    def look(self):
        fs = {"files": [], "dirs": [], "ro": []}
        for d, ds, names in os.walk(self.base):
            p = [] if d == self.top else os.path.relpath(d, self.top).split(os.sep)
            fs["dirs"].append(p)
            if not os.stat(d).st_mode & 0o200:
                fs["ro"].append(p)
            fs["files"] += [{"p": p + [n], "c": self.content(os.path.join(d, n))} for n in names]
        fs["dirs"] = [d for d in fs["dirs"] if ".." not in d]      # those above are our own
        return fs

    def content(self, f):
        try:
            with open(f) as h:
                d = yaml.safe_load(h)
            if str(d.pop("version")) != "1.0.0":
                return 0
            t = TreeStructure()
            rosidl_runtime_py.set_message_fields(t, d)
            return self.trees.get(repr(t), 0)
        except Exception:
            return 0

    def save(self, r):
        before = self.look()
        comp = {"LONG": "l" * 300, "NUL": "a\0b"}
        name = "/".join(comp.get(x, x) for x in r["comps"])
        root = self.path(r["root"]) + r.get("slash", "")
        self.saved(r["c"])
        req = SaveTree.Request(storage_path=root, filepath=(self.top + "/" + name) if r["abs"] else name, tree=tree(r["c"]),
                               allow_overwrite=bool(r["ow"]), allow_rename=bool(r["rn"]))
        try:
            res = self.m.save_tree_to_path(req, SaveTree.Response())
            a = {"ok": bool(res.success), "path": self.back(res.file_path) if res.success else []}
        except Exception as e:
            a = {"ok": False, "path": [], "raises": repr(e)[:200]}
        return {"k": "save", "fs": before, "req": r, "ans": a, "fs2": self.look()}

    def back(self, p):
        rel = os.path.relpath(p, self.top)
        return rel.split(os.sep) if os.path.isabs(p) else ["?"]

    def listing(self, root, hidden):
        fs = self.look()
        res = self.m.get_folder_structure(GetFolderStructure.Request(storage_folder=self.path(root), show_hidden=hidden), GetFolderStructure.Response())
        out, ids = [], {}

        def walk(d, p, parent):
            kind = {"file": 0, "directory": 1}.get(d.get("type"), 2)
            good = d.get("parent") == parent and d["item_id"] not in ids and (p[-1] == d["name"])
            ids[d["item_id"]] = 1
            out.append([p, kind if good else 3])
            for c in d.get("children", []):
                walk(c, p + [c["name"]], d["item_id"])
        if res.success:
            walk(json.loads(res.storage_folder_structure), root, 0)
        return {"k": "list", "fs": fs, "root": root, "hidden": hidden, "list": out}


def work(args):
    where, seed, cases, runs = args
    fall()
    os.umask(0o022)
    rng = random.Random(seed)
    out = []
    for fs, r in cases:
        w = World(where, rng)
        w.fill(fs)
        out.append(w.save(r))
        w.close()
    for _ in range(runs):
        w = World(where, rng)
        w.fill(start(rng))
        for i in range(rng.randint(2, 12)):
            out.append(w.save(request(rng, i + 1)))
            if rng.random() < 0.3:
                out.append(w.listing(rng.choice([["store"], ["more", "deep"]]), rng.random() < 0.5))
        w.close()
    return out


NAMES = ["a", "b", "a_2", "t.yaml", "t_2.yaml", "ü x", ".h"]


def start(rng):
    fs = {"files": [], "dirs": [["out"]], "ro": []}
    for p in (["store", "a"], ["store", "t.yaml"], ["out", "a"], ["store", "d", "t.yaml"], ["more", "deep", "b"], ["store", "t_2.yaml"], ["store", ".h"], ["more", "a"]):
        if rng.random() < 0.35:
            fs["files"].append({"p": p, "c": 50 + len(fs["files"])})
            fs["dirs"].append(p[:-1])
    for p in (["store", "b"], ["store", "d"], ["store", "a_2"], ["storehouse"], ["store", "r"]):
        if rng.random() < 0.4:
            fs["dirs"].append(p)
            if p[-1] == "r":
                fs["files"].append({"p": p + ["a"], "c": 90})
                fs["ro"].append(p)
    return fs


def request(rng, c):
    root, conf, slash = rng.choices([(["store"], True, ""), (["more", "deep"], True, ""), (["out"], False, ""), (["more"], False, ""), (["store"], False, "/."), (["store", "b"], False, "")],
                                    [10, 4, 1, 1, 0.5, 0.5])[0]
    name = lambda: rng.choices(NAMES + ["..", ".", "", "LONG", "NUL"], [2, 1, 1, 3, 1, 1, 1, 1.2, 0.4, 0.4, 0.1, 0.1])[0]
    comps = [name() for _ in range(rng.choices([0, 1, 2, 3, 4], [0.3, 5, 3, 1, 1])[0])]
    if rng.random() < 0.25:
        comps = rng.choice([["..", "out", "a"], ["..", "store", "a"], ["..", "storehouse", "t.yaml"], ["..", "..", "a"], ["d", "..", "..", "out", "t.yaml"], ["..", "b"], ["r", "a"], ["r", "n"],
                            ["..", "store", "d", "t.yaml"], ["a", "b"], ["d", "t.yaml", "x"], ["..", "deep", "b"], ["..", "a"]])
    ab = rng.random() < 0.1
    if ab:
        comps = rng.choice([["store"], ["out"], ["more", "deep"], ["storehouse"]]) + comps
    if slash and comps[:1] == [""]:
        comps = comps[1:]
    if not ab:
        while comps and comps[0] == "":         # would make it an absolute path
            comps = comps[1:]
    return {"root": root, "conf": conf, "slash": slash, "abs": ab, "comps": comps, "ow": rng.random() < 0.5, "rn": rng.random() < 0.35, "c": c}


def run(check):
    cases = []
    res = tlc.run("StoreMC", workers=4, on_line=cases.append)
    if not res.ok:
        raise RuntimeError("the specification violates its own properties:\n" + res.violation[-3000:])
    check.add(states=res.distinct, transitions=res.states)
    rng = random.Random(SEED)
    seen = {json.dumps(c, sort_keys=True): c for c in cases}
    cases = [seen[k] for k in sorted(seen)]
    rng.shuffle(cases)
    if not THOROUGH:
        cases = cases[:3000]
    where = tempfile.mkdtemp(prefix="verif.store.", dir="/tmp")
    os.chmod(where, 0o777)
    try:
        with Pool(8) as pool:
            steps = [s for o in pool.imap_unordered(work, [(where, SEED * 1000 + i, cases[i::32], 30 if not THOROUGH else 600) for i in range(32)]) for s in o]
    finally:
        shutil.rmtree(where)
    check.add(traces_validated_against_impl=len(steps))
    check.sample({"request": steps[0].get("req"), "answer": steps[0].get("ans")})

    def job(chunk):
        path = tempfile.mktemp(suffix=".json", dir=tlc.SCRATCH)
        with open(path, "w") as f:
            json.dump(chunk, f)
        vs = []
        r = tlc.run("StoreTrace", env={"TRACES": path}, on_line=vs.append)
        os.unlink(path)
        if not r.ok or r.distinct != len(chunk) + 1:
            raise RuntimeError(f"StoreTrace failed:\n{r.out[-3000:]}")
        return [(chunk[v[0] - 1], v[1]) for v in vs if v[1]]
    size = -(-len(steps) // 8)
    for r in tlc.parallel([lambda i=i: job(steps[i:i + size]) for i in range(0, len(steps), size)]):
        for s, why in r:
            q = s.get("req")
            what = f"list {'/'.join(s['root'])}" if q is None else \
                f"save {'/' if q['abs'] else ''}{'/'.join(q['comps'])} in {'/'.join(q['root'])}{' overwriting' * q['ow']}{' renaming' * q['rn']}: {s['ans']}"
            check.violation(f"{why}: {what}", s)
    for s in steps:
        if s.get("ans", {}).get("raises"):
            check.violation(f"an exception instead of an answer: save {'/'.join(s['req']['comps'])}: {s['ans']['raises']}", s)
    check.assumptions += ["file names have no links; the storage folders as configured have no links either",
                          "one request at a time; a full disk or a crash while a file is written is not modelled"]
