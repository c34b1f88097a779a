"""Obligations, verdicts and helpers shared by the rules.

A rule states obligations about values, exceptions and effects that the
value-flow analysis derived from /repo's source.  Each obligation ends up

    proved     the two terms are equal modulo the term axioms (or the effect
               set / condition is as required),
    refuted    they differ, and neither contains anything the analysis had to
               approximate -> VIOLATION,
    undecided  the analysis had to approximate -> reported, never an alarm.
"""

import json
import os
import signal
import sys
import tempfile
import time
import traceback

from . import interp, terms as T
from .interp import HDict, HList, HTable, Interp, MissingAnchor
from .terms import FALSE, NAN, NONE, ONE, TRUE, ZERO, and_, const, mk, not_, \
    num, or_, phi, sym

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(HERE, "specs")
REPO = os.environ.get("CALK_REPO", "/repo")


def modules(repo):
    out = []
    for d, dirs, files in os.walk(os.path.join(repo, "calkulate")):
        dirs[:] = [x for x in dirs if not x.startswith("__")]
        for f in sorted(files):
            if f.endswith(".py"):
                rel = os.path.relpath(os.path.join(d, f), repo)[:-3]
                m = rel.replace(os.sep, ".")
                if m.endswith(".__init__"):
                    m = m[:-9]
                out.append(m)
    return sorted(out)


class Rule:
    """Context handed to a property's rule."""

    def __init__(self, prop, tier="quick", repo=REPO):
        self.prop, self.tier, self.repo = prop, tier, repo
        extra = {f[:-3]: os.path.join(SPECS, f)
                 for f in os.listdir(SPECS) if f.endswith(".py")}
        self.I = Interp(repo, extra=extra)
        for m in modules(repo):
            self.I.load(m)
        for m in extra:
            self.I.load(m)
        self.I.finish_loading()
        self.obls = []
        self.anchors = set()
        self.missing = set()
        self.n = 0
        self.jobs = []

    # ---------------------------------------------------------------- setup
    def fn(self, qual):
        v = self.I.lookup(qual)
        if v is None:
            raise MissingAnchor(qual)
        self.anchors.add(qual)
        return v

    def run(self, qual, *args, **kw):
        """Analyse an entry point; returns Result or None if impossible."""
        f = self.fn(qual) if isinstance(qual, str) else qual
        return self.I.analyse(f, args, kw)

    def dict(self, items, owner=None, base=None):
        d = {}
        for k, v in items.items():
            c, v = v if isinstance(v, tuple) else (TRUE, v)
            d[const(k)] = (c, v)
        return self.I.new(HDict(d, owner=owner, base=base), self.I.st)

    def list(self, items, owner=None):
        return self.I.new(HList([(TRUE, v) for v in items], owner=owner),
                          self.I.st)

    def table(self, cols, owner="caller:ds", given=None):
        """Symbolic table with the named columns (and no others)."""
        d = {}
        for c in cols:
            d[const(c)] = (TRUE, mk("col", const("ds"), const(c)))
        for k, v in (given or {}).items():
            d[const(k)] = v if isinstance(v, tuple) else (TRUE, v)
        return self.I.new(HTable(d, owner=owner), self.I.st)

    def col(self, name):
        return mk("col", const("ds"), const(name))

    # ---------------------------------------------------------------- jobs
    def job(self, name, f, *args, **kw):
        """Register one scenario; scenarios are analysed independently."""
        self.jobs.append((name, lambda: f(self, *args, **kw)))

    def _one(self, name, f, path):
        self.obls, self.anchors, self.missing = [], set(), set()
        self.I.analysed = set()
        try:
            f()
        except MissingAnchor as e:
            self.missing.add(str(e))
            self.record("anchor", str(e), "undecided",
                        "the anchored function no longer exists")
        except (Exception, RecursionError) as e:
            self.record(name, "analysis", "undecided",
                        f"{type(e).__name__}: {e} "
                        + traceback.format_exc()[-400:])
        for o in self.obls:
            o["scenario"] = name
        with open(path, "w") as h:
            json.dump({"obls": self.obls, "anchors": sorted(self.anchors),
                       "missing": sorted(self.missing),
                       "analysed": sorted(self.I.analysed)}, h)

    def run_jobs(self, workers=8, per_job=150, total=600):
        """Fork one process per scenario; merge the obligations."""
        out = {"obls": [], "anchors": set(), "missing": set(),
               "analysed": set(), "scenarios": len(self.jobs)}
        end = time.monotonic() + total
        with tempfile.TemporaryDirectory() as tmp:
            pending = list(enumerate(self.jobs))
            live = {}
            sys.stdout.flush()

            def lost(name, why_):
                out["obls"].append({
                    "rule": name, "construct": "analysis",
                    "verdict": "undecided", "detail": why_,
                    "scenario": name})

            while pending or live:
                while pending and len(live) < workers:
                    i, (name, f) = pending.pop(0)
                    path = os.path.join(tmp, str(i))
                    if time.monotonic() > end:
                        lost(name, "time limit of the whole check")
                        continue
                    pid = os.fork()
                    if pid == 0:
                        code = 1
                        try:
                            self._one(name, f, path)
                            code = 0
                        finally:
                            os._exit(code)
                    live[pid] = (name, path, time.monotonic())
                if not live:
                    break
                try:
                    pid, status = os.waitpid(-1, os.WNOHANG)
                except ChildProcessError:
                    pid = 0
                    live.clear()
                if pid in live:
                    name, path, t0 = live.pop(pid)
                    if os.environ.get("CALK_TIMES"):
                        print(f"    {time.monotonic() - t0:6.1f} s {name}")
                    if os.path.exists(path):
                        with open(path) as h:
                            d = json.load(h)
                        out["obls"] += d["obls"]
                        for k in ("anchors", "missing", "analysed"):
                            out[k] |= set(d[k])
                    else:
                        lost(name, f"analysis process ended ({status})")
                    continue
                now = time.monotonic()
                for p, (name, path, t0) in list(live.items()):
                    if now - t0 > per_job or now > end + 20:
                        os.kill(p, signal.SIGKILL)
                        os.waitpid(p, 0)
                        del live[p]
                        lost(name, "time limit of this scenario")
                time.sleep(0.005)
        return out

    # ---------------------------------------------------------------- record
    def record(self, rule, construct, verdict, detail=""):
        self.n += 1
        self.obls.append({"rule": rule, "construct": construct,
                          "verdict": verdict, "detail": detail})
        return verdict == "proved"

    def guard(self, rule, construct, f):
        """Run f(); analysis failures leave the obligation undecided."""
        try:
            return f()
        except MissingAnchor:
            raise
        except (Exception, RecursionError) as e:
            self.record(rule, construct, "undecided",
                        f"analysis: {type(e).__name__}: {e} "
                        + traceback.format_exc()[-300:])
            return None

    def same(self, rule, construct, got, want, assume=TRUE, budget=20000):
        if got is None or want is None:
            return self.record(
                rule, construct, "refuted" if want is not None else
                "undecided", "no value is ever returned")
        if assume is not TRUE:
            got, want = (
                mk("phi", assume, T.under(z, assume, True), mk("tuple", ()))
                if assume is not FALSE else mk("tuple", ())
                for z in (got, want))
        c = T.compare(got, want, budget)
        if c == "eq":
            return self.record(rule, construct, "proved")
        if c == "ne":
            if self.prop != "C14" and T.compare(
                    T.ordered(got), T.ordered(want), budget) == "eq":
                return self.record(rule, construct, "undecided",
                                   "differs only where NaN is compared")
            d = T.difference(got, want)
            return self.record(rule, construct, "refuted", d)
        return self.record(rule, construct, "undecided", why(got, want))

    def holds(self, rule, construct, cond, detail=""):
        """A condition that must be identically true."""
        return self.same(rule, construct, cond, TRUE)

    def true(self, rule, construct, ok, detail=""):
        return self.record(rule, construct, "proved" if ok else "refuted",
                           "" if ok else detail)

    # ---------------------------------------------------------------- values
    def attr(self, res, name, value=None):
        """Attribute of a returned object in its final state."""
        v = self.get(res, res.value if value is None else value, name)
        return None if v is None else res.I.snap(v, res.st)

    def get(self, res, v, name):
        st = res.st
        I = res.I
        if v is None:
            return None
        I.raises, sv = [], I.raises
        try:
            return I.getattr(v, name, st)
        except interp.Dead:
            return None
        finally:
            I.raises = sv

    def item(self, res, v, key):
        st, I = res.st, res.I
        if v is None:
            return None
        I.raises, sv = [], I.raises
        try:
            key = key if isinstance(key, T.Node) else (
                num(key) if isinstance(key, int) else const(key))
            return I.snap(I.getitem(v, key, st), st)
        except interp.Dead:
            return None
        finally:
            I.raises = sv


def why(*terms):
    tags = []
    for t in terms:
        for x in T.walk(t):
            if x.op in T.UNKNOWN_OPS:
                tags.append(T.show(x, 2)[:80])
            elif x.op == "app" and x.args[0] not in T.KNOWN_APPS:
                tags.append("app " + x.args[0])
    return "approximated: " + ("; ".join(sorted(set(tags))[:6]) or
                               "comparison budget")


def raised(res, *types):
    """Condition under which the entry point raises (one of types)."""
    cs = []
    for x in res.raises:
        if types and x[0] not in types:
            continue
        cs.append(and_(*x[2].pc))
    return or_(*cs)


def excs(t):
    return sorted({x for x in T.walk(t) if x.op == "exc"},
                  key=lambda n: n.id)


def no_exc(t):
    """Value when no library call inside a try block fails."""
    if t is None:
        return None
    return T.transform(t, lambda x: FALSE if x.op == "exc" else None)


def S(name, *flags):
    return sym(name, *(flags or ("s", "nn")))


def A(name):
    return sym(name, "a", "nn")
