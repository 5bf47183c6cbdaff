"""Verdict collection and the evidence file."""
import json
import os
import time

from . import build

LEVEL = "proof"


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = {}   # key -> text
        self.undecided = {}    # key -> text
        self.samples = []
        self.counts = {}
        self.obligations = 0
        self.discharged = 0
        self.rule = ""
        self.assumptions = []
        self.trusted = []
        self.analysed = {}
        self.floors = []

    @property
    def thorough(self):
        return self.tier == "thorough"

    def ok(self, sample=None):
        self.obligations += 1
        self.discharged += 1
        if sample is not None and len(self.samples) < 25:
            self.samples.append(str(sample))

    def oblige(self, good, key, text, sample=None):
        """One obligation: `good` True = discharged, False = violated, None = undecided."""
        self.obligations += 1
        if good is True:
            self.discharged += 1
            if sample is not None and len(self.samples) < 25:
                self.samples.append(str(sample))
        elif good is False:
            self.violations.setdefault(key, text)
        else:
            self.undecided.setdefault(key, text)

    def violate(self, key, text):
        self.obligations += 1
        self.violations.setdefault(key, text)

    def undecide(self, key, text):
        self.obligations += 1
        self.undecided.setdefault(key, text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def floor(self, name, n):
        """The rule must have matched at least n instances of `name` (else it would pass vacuously)."""
        self.floors.append((name, n))


def known_findings():
    p = os.path.join(build.VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def finish(ctx):
    import sys
    for name, n in ctx.floors:
        got = ctx.counts.get(name, 0)
        if got < n:
            # Too few instances: say so in the evidence; whether it is a violation is the rule's business.
            ctx.undecided.setdefault("floor:" + name, "only %d instances of %s (expected at least %d)" % (got, name, n))
    known = {f["key"]: f for f in known_findings() if f.get("status") == "known" and f["property"] == ctx.prop}
    new = {k: v for k, v in ctx.violations.items() if k not in known}
    old = {k: v for k, v in ctx.violations.items() if k in known}
    for k, v in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s [%s]" % (ctx.prop, known[k]["what"], k))
    cov = {
        "obligations": ctx.obligations,
        "discharged": ctx.discharged,
        "checker_cmd": "python3 check.py --property %s --tier %s" % (ctx.prop, ctx.tier),
        "trusted_base": ctx.trusted or ["rustc MIR of the current tree (driver/)", "models of std functions (fa/models.py)"],
        "rule": ctx.rule,
        "samples": ctx.samples,
        "counts": ctx.counts,
        "analysed": ctx.analysed,
        "undecided": [{"key": k, "what": v} for k, v in sorted(ctx.undecided.items())],
        "violations": [{"key": k, "what": v} for k, v in sorted(ctx.violations.items())],
    }
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": LEVEL,
        "coverage": cov, "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 3), "violations": len(new),
    }
    evdir = os.environ.get("FYI_EVIDENCE", os.path.join(build.VERIF, "evidence"))
    os.makedirs(evdir, exist_ok=True)
    path = os.path.join(evdir, ctx.prop + ".json")
    with open(path, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violations (%.1fs)" % (
        ctx.prop, ctx.obligations, ctx.discharged, len(ctx.undecided), len(ctx.violations), time.time() - ctx.t0))
    for k, v in sorted(ctx.undecided.items()):
        print("  undecided [%s] %s" % (k, v))
    for k, v in sorted(new.items()):
        print("  violation [%s] %s" % (k, v))
    if new:
        print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        sys.stdout.flush()
        return 1
    return 0
