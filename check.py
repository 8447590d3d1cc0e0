#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough] [--workers N] [--replay FILE]

Runs the monitors of one property over the current working tree of /repo.
exit 0: held on everything observed; exit 1 + VIOLATION line: violated; exit 2: inconclusive.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import sys
import time
import traceback

sys.dont_write_bytecode = True
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
from vp import core  # noqa: E402

EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))
WATCHDOG = {"quick": 780, "thorough": 6 * 3600}


def known_keys(pid):
    """findings listed in known_findings.txt for this property: key -> description"""
    out = {}
    with open(os.path.join(ROOT, "known_findings.txt")) as f:
        for line in f:
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, desc = rest.split(" ", 1)
                out[key.split("=", 1)[1]] = desc
    return out


def run_worker(pid, tier, seed, worker, workers, conn):
    mon = core.Monitor(pid, tier, seed, worker)
    err = None
    try:
        core.load_target()
        mod = importlib.import_module("vp.props.%s" % pid.lower())
        mon.attach()
        rng = random.Random("%s/%d/%d" % (pid, seed, worker))
        random.seed("%s/%d/%d/lib" % (pid, seed, worker))
        try:
            mod.run(mon, rng, tier, worker, workers)
        except (core.StopCheck, core.Failed):
            pass
        finally:
            mon.detach()
    except BaseException:
        err = traceback.format_exc()
    conn.send_bytes(pickle.dumps((mon.dump(), err)))
    conn.close()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--only-worker", type=int, default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--margins", action="store_true")
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if a.replay:
        r = json.load(open(a.replay))
        pid, seed, tier, a.workers = r["property"], r["seed"], r["tier"], r["workers"]
        a.only_worker = r["violations"][0].get("worker", 0)
    t0 = time.time()
    total = core.Monitor(pid, tier, seed)
    procs = []
    ids = range(a.workers) if a.only_worker is None else [a.only_worker]
    ctx = mp.get_context("fork")
    for w in ids:
        rx, tx = ctx.Pipe(False)
        p = ctx.Process(target=run_worker, args=(pid, tier, seed, w, a.workers, tx))
        p.start()
        tx.close()
        procs.append((w, p, rx))
    errors = []
    deadline = t0 + WATCHDOG[tier]
    for w, p, rx in procs:
        try:
            if not rx.poll(max(0.1, deadline - time.time())):
                errors.append("worker %d: watchdog fired (inconclusive)" % w)
                p.kill()
                continue
            d, err = pickle.loads(rx.recv_bytes())
            total.merge(d, w)
            if err:
                errors.append("worker %d: %s" % (w, err))
        except EOFError:
            errors.append("worker %d died" % w)
        p.join()
    missing = sorted(k for k in total.required if not total.obs.get(k))
    wall = time.time() - t0

    listed = known_keys(pid)
    for key in total.known:
        if key in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, listed[key]))
        else:
            total.violations.append({"monitor": "known-finding", "message": "unlisted finding " + key, "case": None, "detail": {}})

    core.load_target()
    mod = importlib.import_module("vp.props.%s" % pid.lower())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": total.evals,
            "distinct_nontrivial": len(total.keys) + total.bulk_distinct,
            "rule": mod.RULE,
            "samples": total.samples[:8],
            "monitor_observations": dict(sorted(total.obs.items())),
            "openspace_lines_reached": len(total.lines),
            "openspace_functions_called": len(total.calls),
            "openspace_calls_observed": sum(total.calls.values()),
            "busiest_functions": dict(total.calls.most_common(12)),
            "tightest_margin_used": {k: round(v, 4) for k, v in sorted(total.margin.items(), key=lambda x: -x[1])[:12]},
            "workers": len(list(ids)),
            "statistics": total.stats,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(total.violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if a.margins:
        for k, v in sorted(total.obs.items()):
            print("  %-46s n=%-8d margin=%s" % (k, v, "%.3g" % total.margin[k] if k in total.margin else "-"))

    if total.violations:
        path = os.path.join(EVIDENCE, "replay", "%s-seed%d-%s.json" % (pid, seed, tier))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump({"property": pid, "seed": seed, "tier": tier, "workers": a.workers,
                       "how": "python3-vt /verif/check.py %s --replay <this file>" % pid,
                       "violations": total.violations}, f, indent=1, default=str)
        for v in total.violations[:5]:
            print("  [%s] %s" % (v["monitor"], v["message"]))
            print("      case: %s" % json.dumps(v["case"], default=str)[:600])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if errors or missing or total.evals == 0:
        for e in errors:
            print(e)
        print("INCONCLUSIVE property=%s missing=%s evaluations=%d" % (pid, missing, total.evals))
        sys.exit(2)
    print("HELD property=%s tier=%s seed=%d cases=%d distinct=%d observations=%d calls=%d lines=%d wall=%.1fs" % (
        pid, tier, seed, total.evals, len(total.keys) + total.bulk_distinct, sum(total.obs.values()), sum(total.calls.values()), len(total.lines), wall))
    sys.exit(0)


if __name__ == "__main__":
    main()
