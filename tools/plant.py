"""Plants a bug: python3-vt tools/plant.py SPEC.py [ID ...] [--check] [--keep]
SPEC defines BUGS = {id: dict(prop, needs, breaks, edits=[(file, old, new)], demo=python source)}.
Each is confirmed in a scratch copy (applies, tests pass, demo 0 without / nonzero with) and kept as seeded/<id>/;
--check then runs the property's check against the scratch copy."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# run with cwd at the repository: exit 0 when the property holds, nonzero when it is broken
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src" exec python3 "$(dirname "$0")/demo.py"
"""


def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]
    ids = [a for a in sys.argv[2:] if not a.startswith("--")] or list(spec)
    for bid in ids:
        b = spec[bid]
        d = tempfile.mkdtemp(prefix="plant")
        try:
            subprocess.run(["cp", "-a", "/repo/.", d], check=True)
            for f, old, new in b["edits"]:
                p = os.path.join(d, "src/openspace", f)
                s = open(p).read()
                if s.count(old) != 1:
                    raise SystemExit("%s: %d matches in %s for %r" % (bid, s.count(old), f, old))
                open(p, "w").write(s.replace(old, new))
            diff = subprocess.run(["git", "-C", d, "diff"], stdout=subprocess.PIPE, check=True).stdout
            out = os.path.join(ROOT, "seeded", bid)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "wb").write(diff)
            open(out + "/demo.py", "w").write(b["demo"].strip() + "\n")
            open(out + "/demo.sh", "w").write(DEMO_SH)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1")
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            good = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            bad = subprocess.run(["bash", out + "/demo.sh"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            ok = t.returncode == 0 and good.returncode == 0 and bad.returncode != 0
            line = "%s tests=%s demo(unchanged)=%d demo(changed)=%d %s" % (bid, t.stdout.decode().strip().splitlines()[-1][:40], good.returncode, bad.returncode, "ok" if ok else "REJECTED")
            if not ok:
                line += "\n" + good.stdout.decode()[-600:] + "\n--\n" + bad.stdout.decode()[-600:]
                if "--keep" not in sys.argv:
                    shutil.rmtree(out)
            if ok and "--check" in sys.argv:
                e = dict(os.environ, OPENSPACE_SRC=d + "/src", VERIF_EVIDENCE=d + "/ev")
                c = subprocess.run([sys.executable, ROOT + "/check.py", b["prop"]], cwd=ROOT, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                m = re.search(r"^  \[.*", c.stdout.decode(), re.M)
                line += " check=%d %s" % (c.returncode, (m.group(0)[:160] if m else "") + ("" if c.returncode == 1 else "   <<< MISSED"))
            print(line, flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


main()
