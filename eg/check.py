"""Check driver: obligations, known findings, evidence, exit code."""
import json
import os
import signal
import sys
import threading
import time
import traceback

from .prog import load, rel, AnalysisBroken, ROOT

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


def check(pid, technique, rule):
    def deco(f):
        REGISTRY[pid] = (f, technique, rule)
        return f
    return deco


def unresolved(t):
    from .terms import contains
    return contains(t, lambda q: q.op in ("unk", "lv") or q.op == "app" and (q.a[0] in ("loop", "copyinto", "upto") or str(q.a[0]).startswith("after:")))


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.p = load()
        self.ob = []            # (obligation, where, status, detail)
        self.functions = set()
        self.undecided = []
        self.notes = []
        self.count = {}

    def loc(self, fn, line=None):
        if fn is None:
            return "?"
        return "%s:%s (%s)" % (rel(fn["file"]), line or fn.get("l", "?"), fn["n"])

    def saw(self, fn):
        if isinstance(fn, dict):
            self.functions.add(fn["n"])
        elif isinstance(fn, str):
            self.functions.add(fn)
        else:
            for u in fn.analysed:
                f = self.p.funcs.get(u)
                if f:
                    self.functions.add(f["n"])

    def ok(self, what, where=""):
        self.ob.append((what, where, "held", ""))

    def bad(self, what, where, detail, key=None):
        """key: stable identification of the construct (for the known-findings file)."""
        self.ob.append((what, where, "violated", detail, key or what))

    def need(self, cond, what, where, detail="", key=None, about=()):
        """about: the terms judged; one the analysis could not resolve makes a failure undecided, not a violation."""
        if cond:
            self.ok(what, where)
        elif any(t is not None and unresolved(t) for t in about):
            self.undecide(what, where, "not resolved: " + detail[:300])
        else:
            self.bad(what, where, detail, key)
        return cond

    def part(self, name, f, *a, **k):
        """One part of a property: what it cannot find in the source leaves this part undecided."""
        try:
            with limit(PART):
                return f(*a, **k)
        except AnalysisBroken as e:
            self.undecide(name, "", str(e))
        except Exception as e:      # a shape the rule was not written for
            sys.stderr.write("UNDECIDED %s: %s\n" % (name, traceback.format_exc()))
            self.undecide(name, "", "unexpected shape: %r" % e)

    def undecide(self, what, where, why):
        self.undecided.append((what, where, why))

    def tally(self, k, n=1):
        self.count[k] = self.count.get(k, 0) + n


PART, WHOLE = 240, 480      # seconds
START = time.time()


class TimeUp(AnalysisBroken):
    pass


class limit:
    """What takes longer is left undecided. Limits nest: the earlier end counts."""
    ends = []

    def __init__(self, secs):
        self.secs = secs

    @staticmethod
    def arm():
        signal.setitimer(signal.ITIMER_REAL, max(0.01, min(limit.ends) - time.time()) if limit.ends else 0, 5 if limit.ends else 0)

    @staticmethod
    def ring(*_):
        if limit.ends and time.time() >= min(limit.ends) - 0.01:
            raise TimeUp("the analysis took too long")
        limit.arm()

    def __enter__(self):
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, limit.ring)
            limit.ends.append(time.time() + self.secs)
            limit.arm()

    def __exit__(self, *_):
        if threading.current_thread() is threading.main_thread():
            limit.ends.pop()
            limit.arm()


def known_findings():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            # property=<id> key=<key> :: description
            if l.startswith("finding:"):
                l = l[len("finding:"):].strip()
            head, _, desc = l.partition(" :: ")
            parts = head.strip().split(" ", 1)
            pid = parts[0].split("=", 1)[1]
            key = parts[1].split("=", 1)[1].strip()
            out.append((pid, key, desc.strip()))
    return out


def run(pid, tier="quick"):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn, technique, rule = REGISTRY[pid]
    ctx = Ctx(pid, tier)
    try:
        with limit(WHOLE):
            fn(ctx)
    except AnalysisBroken as e:
        ctx.undecide("the rest of the property", "", str(e))
    except Exception as e:      # a shape the rule was not written for
        sys.stderr.write("UNDECIDED: %s\n" % traceback.format_exc())
        ctx.undecide("the rest of the property", "", "unexpected shape: %r" % e)
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    viol = [o for o in ctx.ob if o[2] == "violated"]
    kf, new = [], []
    for o in viol:
        hit = [d for k, d in known if k == o[4]]
        (kf if hit else new).append((o, hit[0] if hit else ""))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replay = os.path.join(VERIF, "evidence", "replay-%s.txt" % pid)
    held = sum(1 for o in ctx.ob if o[2] == "held")
    for (o, d) in {o[4]: (o, d) for o, d in kf}.values():
        print("KNOWN-FINDING: property=%s %s -- %s" % (pid, o[4], d or o[3][:200]))
    seen = set()
    if new:
        with open(replay, "w") as f:
            f.write("property %s\nrule: %s\nre-run: cd /verif && python3 run_check.py %s\n\n" % (pid, rule, pid))
            for o, _ in new:
                f.write("VIOLATED %s\n  at %s\n  %s\n  key=%s\n\n" % (o[0], o[1], o[3], o[4]))
        for o, _ in new:
            print("  %s at %s: %s" % (o[0], o[1], o[3][:600]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    elif os.path.exists(replay):
        os.unlink(replay)
    if not ctx.ob:
        raise AnalysisBroken("no obligation was generated for %s" % pid)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static analysis (%s). Rule: %s Obligations are generated from the source on every run; each names the construct it was decided on." % (technique, rule),
            "obligations": len(ctx.ob), "held": held, "violated_known": len(kf), "violated_new": len(new),
            "undecided": [{"what": a, "where": b, "why": c} for a, b, c in ctx.undecided][:50],
            "functions_analysed": len(ctx.functions),
            "functions": sorted(ctx.functions)[:120],
            "counts": ctx.count,
            "samples": [{"obligation": o[0], "where": o[1], "status": o[2]} for o in ctx.ob[:60]],
            "translation_units": ctx.p.ntu,
        },
        "violations": len(new),
        "assumptions": ["clang 18's AST of each translation unit (the build's own flags) is the program analysed",
                        "standard library, nlohmann::json and HACL* behave as documented"] + ctx.notes,
        "wall_s": round(time.time() - t0, 2),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d held, %d known findings, %d violations, %d undecided, %d functions, %.1fs" % (
        pid, len(ctx.ob), held, len(kf), len(new), len(ctx.undecided), len(ctx.functions), time.time() - t0))
    return 1 if new else 0


def main(argv):
    tier = "quick"
    ids = []
    for a in argv:
        if a.startswith("--tier="):
            tier = a.split("=")[1]
        elif a == "--thorough":
            tier = "thorough"
        else:
            ids.append(a)
    from . import rules  # noqa: F401  registers everything
    if ids == ["all"]:
        ids = sorted(REGISTRY)
    rc = 0
    for i in ids:
        try:
            r = run(i, tier)
        except AnalysisBroken as e:
            print("ANALYSIS-BROKEN %s: %s" % (i, e))
            r = 2
        except Exception:
            traceback.print_exc()
            r = 2
        rc = max(rc, r)
    return rc
