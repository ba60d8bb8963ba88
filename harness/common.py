"""Verdicts, evidence and known findings shared by all checks."""

import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = TIER == "thorough"


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.findings = load_findings(prop)

    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(s)

    def violation(self, what, data):
        """what: one line; data: everything needed to replay it."""
        for f in self.findings:
            if f["match"] in what:
                if f["id"] not in self.known:
                    self.known.append(f["id"])
                    print(f"KNOWN-FINDING: property={self.prop} {f['what']}", flush=True)
                return False
        d = os.path.join(VERIF, "build", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "what": what, "data": data}, f, indent=1, default=str)
        self.violations.append(what)
        if len(self.violations) <= 5:
            print(what, flush=True)
            print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        return True

    def finish(self):
        ev = {"property": self.prop, "tier": "thorough" if THOROUGH else "quick", "seed": SEED,
              "level": "model_checking", "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.prop}: {json.dumps({k: v for k, v in self.cov.items() if k != 'samples'})} "
              f"in {ev['wall_s']} s, {len(self.violations)} violations")
        return 1 if self.violations else 0


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]
