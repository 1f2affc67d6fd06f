"""Framework of the checks: obligations, findings, evidence and the command line."""
import json
import os
import signal
import sys
import time
import traceback
import warnings

from . import terms as t
from .compare import Comparer, EQ, NE, UNK
from .interp import Interp, Unsupported
from .program import Program

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Undecided(Exception):
    "The analysis cannot decide the obligation (never reported as a violation)."


class Timeout(Exception):
    "Time limit of one obligation."


class AnchorMissing(Exception):
    "A public construct the property is anchored in does not exist any more."


class Ctx(object):
    def __init__(self, pid, tier, repo):
        self.pid = pid
        self.tier = tier
        self.program = Program(repo)
        self.repo = self.program.repo
        self.violations = []        # (key, construct, message)
        self.obligations = []       # dict
        self.functions = set()
        self.callsites = 0
        self.notes = []
        self.counts = {}
        self.cache = {}
        self.deadline = time.time() + 700
        self.depth = 0

    # ---- source
    def anchor(self, qual):
        f = self.program.func(qual)
        if f is None:
            raise AnchorMissing(qual)
        return f

    def anchor_cls(self, qual):
        c = self.program.cls(qual)
        if c is None:
            raise AnchorMissing(qual)
        return c

    def spec(self, name):
        """reference definitions: sa/specs/<name>.py, analysed by the same engine and never executed"""
        mod = "spec." + name
        if mod not in self.cache:
            path = os.path.join(HERE, "specs", name + ".py")
            with open(path) as fh:
                self.program.add_source(mod, fh.read(), path)
            self.cache[mod] = True
        return lambda f: self.program.func(mod + "." + f)

    def interp(self, overrides=None, consts=None):
        I = Interp(self.program, overrides, consts)
        return I

    def used(self, I):
        self.functions.update(q for q in I.visited if not q.startswith("spec."))
        self.callsites += I.callsites
        for n in I.notes:
            if n not in self.notes and len(self.notes) < 60:
                self.notes.append(n)

    # ---- results
    def record(self, name, status, where, detail=None):
        d = {"obligation": name, "status": status, "where": where}
        if detail:
            d["detail"] = detail
        self.obligations.append(d)

    def violation(self, name, where, msg):
        self.record(name, "violated", where, msg)
        self.violations.append((name, where, msg))

    def ok(self, name, where, detail=None):
        self.record(name, "holds", where, detail)

    def undecided(self, name, where, why):
        self.record(name, "undecided", where, str(why)[:400])

    def require(self, name, cond, where, msg):
        if cond:
            self.ok(name, where)
        else:
            self.violation(name, where, msg)

    def same(self, name, where, got, refs, loops=None, budget=60000, facts=None, known=()):
        """obligation: the value the code computes equals (one of) the reference value(s)"""
        if not isinstance(refs, (list, tuple)):
            refs = [refs]
        worst = None
        for ref in refs:
            c = Comparer(loops or {}, budget)
            c.known = list(known) + [x for x in refs if x is not ref]
            r, wit = c.equal(got, ref, facts)
            if r == EQ:
                self.ok(name, where, "%d regions" % c.leaves)
                return EQ
            if worst is None or r == UNK:
                worst = (r, wit, c)
        r, wit, c = worst
        if r == UNK:
            self.undecided(name, where, wit if isinstance(wit, str) else (c.dubious or "value not fully interpreted"))
            return UNK
        facts, a, b = wit if isinstance(wit, tuple) else ([], wit, "")
        self.violation(name, where, {"when": facts, "code": a, "reference": b})
        return NE

    def obligation(self, name, where, fn, limit=120):
        """run fn with a time limit; what it cannot decide is recorded as undecided"""
        def alarm(*_):
            raise Timeout("time limit %ss" % limit)
        limit = min(limit, self.deadline - time.time())
        if limit < 1:
            self.undecided(name, where, "no time left")
            return None
        self.depth += 1
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
        try:
            return fn()
        except AnchorMissing as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.violation(name, str(e), "anchor missing: the construct this property is about does not exist")
        except (Undecided, Timeout, Unsupported, RecursionError, MemoryError) as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.undecided(name, where, "%s: %s" % (type(e).__name__, e))
        except Exception as e:       # a defect of the analysis never becomes an alarm
            signal.setitimer(signal.ITIMER_REAL, 0)
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.undecided(name, where, "analysis error %s: %s (%s)" % (
                type(e).__name__, e, traceback.format_exc().strip().split("\n")[-3].strip()[:150]))
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            self.depth -= 1
            if self.depth:          # the time limit of the whole check
                signal.setitimer(signal.ITIMER_REAL, max(self.deadline - time.time(), 0.1))
        return None


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                line = line.strip()
                if line.startswith("finding: "):
                    d = dict(x.split("=", 1) for x in line[9:].split("|") if "=" in x)
                    out.append({k.strip(): v.strip() for k, v in d.items()})
    return out


def run_check(pid, fn, tier, explanation):
    t0 = time.time()
    warnings.simplefilter("ignore")
    sys.setrecursionlimit(30000)
    repo = os.environ.get("SA_REPO", "/repo")
    ctx = Ctx(pid, tier, repo)
    ctx.obligation("analysis", pid, lambda: fn(ctx), 840)
    known = [k for k in known_findings() if k.get("property") == pid]
    reported, suppressed = [], []
    for name, where, msg in ctx.violations:
        for k in known:
            if k.get("obligation") == name and k.get("where") == where:
                suppressed.append((name, where, k.get("what", "")))
                break
        else:
            reported.append((name, where, msg))
    n = len(ctx.obligations)
    hold = sum(1 for o in ctx.obligations if o["status"] == "holds")
    und = [o for o in ctx.obligations if o["status"] == "undecided"]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
          "coverage": {
              "explanation": explanation,
              "obligations": n, "discharged": hold, "violated": len(ctx.violations), "undecided": len(und),
              "functions_analysed": sorted(ctx.functions)[:400], "n_functions_analysed": len(ctx.functions),
              "call_sites_followed": ctx.callsites,
              "counts": ctx.counts,
              "obligation_list": ctx.obligations[:300],
              "engine_notes": ctx.notes[:40],
          },
          "wall_s": round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    print("%s: %d obligations, %d hold, %d undecided, %d violated (%.1f s)" % (
        pid, n, hold, len(und), len(ctx.violations), time.time() - t0))
    for o in und:
        print("  undecided: %s at %s: %s" % (o["obligation"], o["where"], o.get("detail")))
    for name, where, what in suppressed:
        print("KNOWN-FINDING: property=%s %s at %s: %s" % (pid, name, where, what))
    if reported:
        path = os.path.join(VERIF, "evidence", pid + ".replay.json")
        with open(path, "w") as fh:
            json.dump([{"obligation": a, "where": b, "difference": c} for a, b, c in reported], fh, indent=1, default=str)
            fh.write("\n")
        for a, b, c in reported:
            print("  violated: %s at %s" % (a, b))
            print("    " + (json.dumps(c, indent=1, default=str).replace("\n", "\n    ")[:3000] if not isinstance(c, str) else c))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    return 0
