"""Runs checks against every planted bug in scratch copies: python3-vt tools/cross.py [--all] [ID ...]
Default: the bug's own property check; --all: every check (which checks catch which changes). Prints a markdown table."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(x)["id"] for x in open(ROOT + "/properties.jsonl")]


def one(bid, every):
    d = tempfile.mkdtemp(prefix="cross")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d], check=True)
        subprocess.run(["git", "-C", d, "apply", ROOT + "/seeded/%s/patch.diff" % bid], check=True)
        meta = json.load(open(ROOT + "/seeded/%s/meta.json" % bid))
        caught, other = [], []
        for p in PROPS if every else [meta["property"]]:
            e = dict(os.environ, OPENSPACE_SRC=d + "/src", VERIF_EVIDENCE=d + "/ev")
            some = [] if p == meta["property"] else ["--only-worker", "0"]  # the other checks: an eighth of their workload
            c = subprocess.run([sys.executable, ROOT + "/check.py", p] + some, cwd=ROOT, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if c.returncode == 1 and b"VIOLATION property=" + p.encode() in c.stdout:
                caught.append(p)
            elif c.returncode:
                other.append("%s:%d" % (p, c.returncode))
        return bid, meta, caught, other
    finally:
        shutil.rmtree(d, ignore_errors=True)


every = "--all" in sys.argv
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
print("| planted change | property | caught by |\n|---|---|---|", flush=True)
with cf.ThreadPoolExecutor(7) as ex:
    for bid, meta, caught, other in ex.map(lambda b: one(b, every), ids):
        print("| %s | %s | %s%s%s |" % (bid, meta["property"], ", ".join(caught) or "-", " (inconclusive %s)" % other if other else "", "" if meta["property"] in caught else " **MISSED**"), flush=True)
