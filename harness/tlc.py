"""Running TLC."""

import json
import os
import re
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
SCRATCH = os.environ.get("VERIF_SCRATCH") or tempfile.mkdtemp(prefix="verif.")
os.environ["VERIF_SCRATCH"] = SCRATCH
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


class TLCResult:
    def __init__(self):
        self.states = 0
        self.distinct = 0
        self.lines = []  # values printed with PrintT("@E ...")
        self.ok = False
        self.violation = None
        self.out = ""


def run(module, env=None, cfg=None, workers=1, heap="3g", timeout=800, on_line=None, extra=()):
    """Run TLC on spec/module.tla; on_line receives each decoded @-line."""
    res = TLCResult()
    meta = tempfile.mkdtemp(prefix="tlc.", dir=SCRATCH)
    e = {k: v for k, v in os.environ.items() if k not in ("LD_LIBRARY_PATH", "PYTHONPATH")}
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss256m", "-Djava.io.tmpdir=" + meta,
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    keep = []
    for line in p.stdout:
        if line.startswith('"@E '):
            v = json.loads(json.loads(line)[3:])
            if on_line:
                on_line(v)
            else:
                res.lines.append(v)
        else:
            keep.append(line)
    rc = p.wait()
    res.out = "".join(keep)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", res.out)
    if m:
        res.states = int(m[-1][0].replace(",", ""))
        res.distinct = int(m[-1][1].replace(",", ""))
    res.ok = rc == 0
    if rc != 0:
        res.violation = "\n".join(l for l in res.out.splitlines() if not l.startswith(("Parsing", "Semantic", "Linting")))
    subprocess.run(["rm", "-rf", meta])
    return res


def parallel(jobs, n=8):
    """jobs: list of callables; returns their results in order."""
    with ThreadPoolExecutor(max_workers=n) as ex:
        return [f.result() for f in [ex.submit(j) for j in jobs]]
