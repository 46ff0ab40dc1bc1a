"""Verdicts, evidence, known findings, replay artefacts."""
import json
import os
import sys
import time

from . import env

KNOWN = os.path.join(env.VERIF, "known_findings.json")


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.cov = {}
        self.samples = []
        self.assumptions = []
        self.viol = []          # (key, message, replay)
        self.known_hit = {}
        self.exhaustive = True
        self.caps = []
        with open(KNOWN) as f:
            data = json.load(f)
        self.known = {e["key"]: e for e in data.get("findings", []) if e["property"] == pid}
        b = os.environ.get("VP_BUDGET")
        self.budget = float(b) if b else (2400.0 if env.THOROUGH else 420.0)

    # -- coverage
    def add(self, **kw):
        for k, v in kw.items():
            self.cov[k] = self.cov.get(k, 0) + v

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def cap(self, why):
        self.exhaustive = False
        self.caps.append(why)

    def time_left(self):
        return self.budget - (time.time() - self.t0)

    @property
    def deadline(self):
        return self.t0 + self.budget

    # -- verdicts
    def violation(self, key, message, replay=None):
        """key identifies the specific failing input/history; listed keys are known findings."""
        if key in self.known:
            self.known_hit.setdefault(key, message)
            return
        if len(self.viol) < 400:
            self.viol.append((key, message, replay))
        else:
            self.viol.append((key, None, None))

    def finish(self):
        wall = time.time() - self.t0
        cov = dict(self.cov)
        cov["samples"] = self.samples or ["(none)"]
        cov["exhaustive"] = self.exhaustive
        if self.caps:
            cov["caps"] = self.caps
        cov["known_findings_hit"] = len(self.known_hit)
        ev = dict(property=self.pid, tier=env.TIER if env.TIER in ("quick", "thorough") else "quick",
                  seed=env.SEED, level=self.level, coverage=cov, assumptions=self.assumptions,
                  wall_s=round(wall, 2), violations=len(self.viol))
        os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
        p = os.path.join(env.VERIF, "evidence", self.pid + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + ".tmp", p)
        for k in sorted(self.known_hit):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]["what"]))
        for k, e in self.known.items():
            if k not in self.known_hit:
                print("note: known finding %r did not show up in this run" % k)
        brief = {k: v for k, v in cov.items() if k not in ("samples", "rule")}
        print("%s %s: %s wall=%.1fs" % (self.pid, env.TIER, json.dumps(brief, default=str), wall))
        if self.viol:
            rd = os.path.join(env.VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, self.pid + ".json")
            key, msg, rep = self.viol[0]
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, violations=[dict(key=k, message=m, replay=r) for k, m, r in self.viol[:400]]),
                          f, indent=1, default=lambda o: o.decode("latin-1") if isinstance(o, bytes) else str(o))
            for k, m, r in self.viol[:8]:
                print("  violation [%s]: %s" % (k, (m or "")[:1500]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            sys.stdout.flush()
            return 1
        try:
            os.unlink(os.path.join(env.VERIF, "evidence", "replay", self.pid + ".json"))
        except OSError:
            pass
        sys.stdout.flush()
        return 0
