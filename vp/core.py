"""Monitor core: verdicts, counters, logical step budgets, coverage observation and evidence.

A property module drives the real openspace code and reports every observation here.  Verdicts are
three-valued: violated (exit 1), held on what was observed (exit 0), inconclusive (exit 2: a required
monitor saw nothing, or the wall-clock watchdog fired).
"""
import collections
import json
import math
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("OPENSPACE_SRC", "/repo/src")
MAX_VIOLATIONS = 8
MON = sys.monitoring
TOOL = 3


class StopCheck(Exception):
    """enough violations collected"""


class StepBudget(BaseException):
    """the code under test executed more loop iterations in one call than any terminating run can"""


class Failed(Exception):
    """a guarded call failed; the violation is already recorded"""


def load_target():
    """import openspace from the working tree, never from elsewhere"""
    sys.dont_write_bytecode = True
    sys.path.insert(0, REPO_SRC)
    import importlib
    import pathlib

    mods = {}
    base = pathlib.Path(REPO_SRC)
    for path in sorted((base / "openspace").rglob("*.py")):
        parts = path.relative_to(base).with_suffix("").parts
        name = ".".join(parts[:-1] if parts[-1] == "__init__" else parts)
        m = importlib.import_module(name)
        if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO_SRC)):
            raise ImportError("%s came from %s" % (name, m.__file__))
        mods[name] = m
    return mods


def fmt(x, depth=0):
    """readable, exactly replayable rendering of inputs and openspace objects"""
    if isinstance(x, float):
        return repr(x)
    if isinstance(x, (int, str, bool)) or x is None:
        return x
    if isinstance(x, (list, tuple)):
        return [fmt(y, depth + 1) for y in x][:200]
    if isinstance(x, dict):
        return {str(k): fmt(v, depth + 1) for k, v in list(x.items())[:200]}
    d = getattr(x, "__dict__", None)
    if d is not None and depth < 5:
        return {"<%s>" % type(x).__name__: {k: fmt(v, depth + 1) for k, v in d.items()}}
    return repr(x)[:300]


class Monitor:
    def __init__(self, pid, tier, seed, worker=0):
        self.pid, self.tier, self.seed, self.worker = pid, tier, seed, worker
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.bulk_distinct = 0
        self.obs = collections.Counter()
        self.margin = {}
        self.violations = []
        self.known = []
        self.samples = []
        self.required = set()
        self.stats = {}
        self.context = None
        self.lines = set()
        self.calls = collections.Counter()
        self._budget = 0
        self._limit = 400_000
        self._in_call = False

    # ---- instrumentation of the running interpreter --------------------------------------------
    def attach(self):
        """observe every openspace code object: lines reached, calls made, and loop back-edges taken"""
        MON.use_tool_id(TOOL, "openspace-monitor")
        src = os.path.realpath(REPO_SRC)

        def mine(code):
            return code.co_filename.startswith(src) or os.path.realpath(code.co_filename).startswith(src)

        cache = {}

        def is_mine(code):
            r = cache.get(code)
            if r is None:
                r = cache[code] = mine(code)
            return r

        def on_start(code, off):
            if not is_mine(code):
                return MON.DISABLE
            self.calls[code.co_qualname] += 1

        def on_line(code, line):
            if is_mine(code):
                self.lines.add((code.co_filename[len(src) + 1:], line))
            return MON.DISABLE

        def on_jump(code, off, dest):
            if not is_mine(code):
                return MON.DISABLE
            if dest < off:
                self._budget += 1
                if self._in_call and self._budget > self._limit:
                    self._budget = 0
                    raise StepBudget()

        MON.register_callback(TOOL, MON.events.PY_START, on_start)
        MON.register_callback(TOOL, MON.events.LINE, on_line)
        MON.register_callback(TOOL, MON.events.JUMP, on_jump)
        MON.set_events(TOOL, MON.events.PY_START | MON.events.LINE | MON.events.JUMP)

    def detach(self):
        MON.set_events(TOOL, 0)
        MON.free_tool_id(TOOL)

    # ---- workload bookkeeping --------------------------------------------------------------------
    def case(self, kind, *inputs, trivial=False):
        """register one generated case; its inputs become the witness of any violation it causes"""
        self.evals += 1
        self.context = (kind, inputs)
        if not trivial:
            self.keys.add(hash((kind, repr(inputs) if not all(isinstance(i, (int, float, str)) for i in inputs) else inputs)))
        if len(self.samples) < 6 and (self.evals in (1, 7, 50, 300, 1500, 5000)):
            self.samples.append({"case": kind, "inputs": fmt(inputs)})

    def run_case(self, fn, *a):
        """one independent case: a failure in it is recorded and the workload goes on"""
        try:
            fn(*a)
        except Failed:
            pass
        except (StopCheck, KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.violate("observable-result", "result cannot be evaluated: %s: %s at %s:%s" % (
                type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))

    def bulk(self, kind, n, key=None):
        """account for n distinct cases/observations of an exhaustive sweep at once"""
        self.evals += n
        self.bulk_distinct += n
        self.obs[kind] += n

    def need(self, *kinds):
        """monitors that must have observed something for the verdict to be conclusive"""
        self.required.update(kinds)

    def call(self, what, fn, *a, **k):
        """run the code under test; an exception or runaway loop on a valid input is a violation"""
        self._budget = 0
        self._in_call = True
        try:
            return fn(*a, **k)
        except StepBudget:
            self._in_call = False
            self.violate(what, "does not terminate: more than %d loop iterations in one call" % self._limit)
        except (StopCheck, Failed, KeyboardInterrupt, MemoryError):
            raise
        except RecursionError as e:
            self._in_call = False
            self.violate(what, "unbounded recursion: %r" % e)
        except Exception as e:
            self._in_call = False
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.violate(what, "raised %s: %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        finally:
            self._in_call = False
        raise Failed()

    # ---- oracles ---------------------------------------------------------------------------------
    def violate(self, kind, msg, **info):
        self.violations.append({"monitor": kind, "message": msg, "case": fmt(self.context), "detail": fmt(info)})
        if len(self.violations) >= MAX_VIOLATIONS:
            raise StopCheck()

    def check(self, kind, ok, msg="", **info):
        self.obs[kind] += 1
        if not ok:
            self.violate(kind, msg or "monitor condition false", **info)
        return ok

    def near(self, kind, got, want, tol, **info):
        """|got - want| <= tol, NaN-safe; remembers the tightest margin seen"""
        self.obs[kind] += 1
        try:
            d = abs(got - want)
            ok = d <= tol
        except Exception:
            ok, d = False, float("nan")
        if ok:
            r = d / tol if tol > 0 else 0.0
            if r > self.margin.get(kind, -1.0):
                self.margin[kind] = r
        else:
            self.violate(kind, "got %r want %r (tolerance %.3g)" % (got, want, tol), **info)
        return ok

    def vnear(self, kind, got, want, tol, **info):
        """vector version: Euclidean distance within tol; got may be an openspace vector or a tuple"""
        g = vec(got)
        self.obs[kind] += 1
        try:
            d = math.sqrt(sum((x - y) * (x - y) for x, y in zip(g, want, strict=True)))
            ok = d <= tol
        except Exception:
            ok, d = False, float("nan")
        if ok:
            r = d / tol if tol > 0 else 0.0
            if r > self.margin.get(kind, -1.0):
                self.margin[kind] = r
        else:
            self.violate(kind, "got %r want %r distance %.6g (tolerance %.3g)" % (g, tuple(want), d, tol), **info)
        return ok

    def angle_near(self, kind, got, want, tol, **info):
        try:
            d = (got - want) % (2 * math.pi)
        except Exception:
            d = float("nan")
        if d > math.pi:
            d -= 2 * math.pi
        return self.near(kind, d, 0.0, tol, angle=got, expected=want, **info)

    def equal(self, kind, got, want, **info):
        self.obs[kind] += 1
        same = got == want
        if not same:
            self.violate(kind, "got %r want %r" % (got, want), **info)
        return same

    def stat(self, name, value):
        self.stats[name] = value

    # ---- merging (parallel workers) --------------------------------------------------------------
    def dump(self):
        return dict(evals=self.evals, keys=self.keys, bulk=self.bulk_distinct, obs=self.obs, margin=self.margin, violations=self.violations,
                    samples=self.samples, required=self.required, stats=self.stats, lines=self.lines, calls=self.calls,
                    known=self.known)

    def merge(self, d, worker):
        self.evals += d["evals"]
        self.keys |= d["keys"]
        self.bulk_distinct += d["bulk"]
        self.obs.update(d["obs"])
        for k, v in d["margin"].items():
            self.margin[k] = max(v, self.margin.get(k, -1.0))
        for v in d["violations"]:
            v = dict(v)
            v["worker"] = worker
            self.violations.append(v)
        if len(self.samples) < 8:
            self.samples += d["samples"][: 8 - len(self.samples)]
        self.required |= d["required"]
        self.stats.update(d["stats"])
        self.lines |= d["lines"]
        self.calls.update(d["calls"])
        for k in d["known"]:
            if k not in self.known:
                self.known.append(k)


def vec(v):
    if isinstance(v, tuple):
        return v
    if hasattr(v, "vx"):
        return (v.x, v.y, v.z, v.vx, v.vy, v.vz)
    return (v.x, v.y, v.z)


def mat(m):
    """rows of any openspace matrix as tuples"""
    out = []
    for i in range(1, 7):
        r = getattr(m, "row%d" % i, None)
        if r is None:
            break
        out.append(vec(r))
    return out
