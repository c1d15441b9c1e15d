"""Running a check: findings, known findings, evidence, exit status."""
import json
import os
import sys
import time
import traceback

from . import front
from .front import AnalysisBroken

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding(object):
    def __init__(self, rule, key, where, msg, path=()):
        self.rule = rule
        self.key = "%s|%s" % (rule, key)
        self.where = where
        self.msg = msg
        self.path = list(path)

    def text(self):
        s = "[%s] %s: %s" % (self.key, self.where, self.msg)
        for p in self.path:
            s += "\n      " + p
        return s


class Ctx(object):
    """What one check run works with."""

    def __init__(self, pid, tier="quick"):
        self.pid = pid
        self.tier = tier
        self.findings = {}
        self.counts = {}
        self.rules = []
        self.samples = []
        self.functions = set()
        self.obligations = 0
        self._prog = None
        self._base = None
        self._types = None

    @property
    def prog(self):
        if self._prog is None:
            from .model import Program
            self._prog = Program()
        return self._prog

    @property
    def types(self):
        if self._types is None:
            from .ftypes import Types
            self._types = Types(self.prog)
        return self._types

    @property
    def base(self):
        if self._base is None:
            from .ai import Interp
            self._base = Interp(self.prog).load_program()
        return self._base

    def interp(self, policy=None):
        from .ai import Interp
        ip = Interp(self.prog, policy, self.base, self.types)
        ip.ctxref = self
        return ip

    def rule(self, text):
        self.rules.append(text)

    def report(self, rule, key, where, msg, path=()):
        f = Finding(rule, key, where, msg, path)
        if f.key not in self.findings:
            self.findings[f.key] = f

    def oblige(self, ok, rule, key, where, msg, path=()):
        """One obligation; a failed one is a finding."""
        self.obligations += 1
        self.counts[rule] = self.counts.get(rule, 0) + 1
        if not ok:
            self.report(rule, key, where, msg, path)
        return ok

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def floor(self, what, n):
        if self.counts.get(what, 0) < n:
            raise AnalysisBroken("only %d x %s were analysed, expected at least %d" % (self.counts.get(what, 0), what, n))

    def sample(self, s):
        if len(self.samples) < 40:
            self.samples.append(s)

    def used(self, *fis):
        for f in fis:
            self.functions.add(f.full)


def known_findings(pid):
    """known_findings.txt: 'KNOWN property=<id> key=<key> :: <what fails>'"""
    r = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for line in open(fn):
            line = line.rstrip("\n")
            if line.startswith("KNOWN property=%s key=" % pid):
                rest = line.split(" key=", 1)[1]
                key, _, what = rest.partition(" :: ")
                r[key.strip()] = what.strip()
    return r


def main(pid, fn, info, tier, verbose=False):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    broken = None
    try:
        fn(ctx)
    except AnalysisBroken as e:
        broken = "%s" % e
    except Exception:
        traceback.print_exc()
        broken = "internal error"
    known = known_findings(pid)
    if broken is not None:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, broken))
        if all(k in known for k in ctx.findings):
            return 3        # what was found before stands
    new = []
    seen = []
    for k in sorted(ctx.findings):
        if k in known:
            seen.append(k)
        else:
            new.append(ctx.findings[k])
    for k in seen:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, known[k] or ctx.findings[k].msg, k))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "out"), exist_ok=True)
    replay = os.path.join(VERIF, "out", "%s.txt" % pid)
    with open(replay, "w") as f:
        for x in new:
            f.write(x.text() + "\n")
    cov = {"explanation": info["explanation"], "rules": ctx.rules, "counts": ctx.counts, "obligations": ctx.obligations,
           "functions_analysed": len(ctx.functions), "functions": sorted(ctx.functions)[:400], "samples": ctx.samples,
           "files": len(ctx.prog.modules), "source_root": front.REPO, "known_findings_seen": seen}
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": info["level"],
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": info.get("assumptions", [])}
    if info["level"] == "proof":
        cov["discharged"] = ctx.obligations - len(ctx.findings)
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write("\n")
    print("%s: %d obligations, %d functions, %s; %.1fs" % (
        pid, ctx.obligations, len(ctx.functions), ", ".join("%s=%s" % kv for kv in sorted(ctx.counts.items())), time.time() - t0))
    for x in new:
        print("  " + x.text())
    if new:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0
