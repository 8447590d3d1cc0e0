"""Mutation campaign: breaks one place of openspace at a time in scratch copies, keeps the mutants the existing tests
accept, and reports which checks notice.  python3-vt tools/mutate.py OUT.jsonl [--files RE] [--sample N] [--seed K] [--full]"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PROPS = ["C%02d" % i for i in range(1, 26)]
ORDER = {"time.py": "C01 C02", "linalg.py": "C03 C04 C22", "functions.py": "C05 C06 C07 C11 C01", "positions.py": "C08 C09 C18", "celestial.py": "C09 C10 C11", "states.py": "C11 C14 C22 C12",
         "elements.py": "C07 C06", "artificial.py": "C20 C21 C15 C18 C17 C22", "terrestrial.py": "C08 C18", "filtering.py": "C17 C22", "iod.py": "C19", "obs.py": "C18 C22", "constraints.py": "C21",
         "payloads.py": "C21 C18", "maneuvers.py": "C16", "inertial.py": "C12 C15 C22", "relative.py": "C13 C17", "constants.py": "C01 C05 C12 C15"}


def seg(src, node):
    lines = src.splitlines(keepends=True)
    a = sum(len(x) for x in lines[:node.lineno - 1]) + len(lines[node.lineno - 1].encode()[:node.col_offset].decode())
    b = sum(len(x) for x in lines[:node.end_lineno - 1]) + len(lines[node.end_lineno - 1].encode()[:node.end_col_offset].decode())
    return a, b


def variants(node):
    """(label, replacement source) for one node"""
    out = []
    u = ast.unparse
    if isinstance(node, ast.BinOp):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
        k = swap.get(type(node.op))
        if k:
            out.append(("binop", "(" + u(ast.BinOp(node.left, k(), node.right)) + ")"))
        if isinstance(node.op, (ast.Add, ast.Sub)):
            out.append(("drop-term", "(" + u(node.left) + ")"))
    elif isinstance(node, ast.Compare) and len(node.ops) == 1:
        swap = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq]}
        for k in swap.get(type(node.ops[0]), []):
            out.append(("compare", u(ast.Compare(node.left, [k()], node.comparators))))
    elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
        v = node.value
        out.append(("const", repr(v + 1)))
        if v:
            out.append(("const-slight", repr(v * 1.0001)))
            out.append(("const-neg", "(-%r)" % v))
    elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        out.append(("unary", "(" + u(node.operand) + ")"))
    elif isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load):
        cyc = {"x": "y", "y": "z", "z": "x", "vx": "vy", "vy": "vz", "vz": "vx", "row1": "row2", "row2": "row3", "row3": "row1", "row4": "row5", "row5": "row6", "row6": "row4", "position": "velocity",
               "velocity": "position", "wfov": "nfov", "nfov": "wfov", "latitude": "longitude", "longitude": "latitude", "p00": "p10", "p10": "p00", "x00": "x10", "x10": "x00",
               "right_ascension": "declination", "declination": "right_ascension", "range_error": "angular_error"}
        if node.attr in cyc:
            out.append(("attr", u(ast.Attribute(node.value, cyc[node.attr], ast.Load()))))
    elif isinstance(node, ast.Call):
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr in ("copy", "transpose", "normalized") and not node.args:
            out.append(("drop-" + f.attr, u(f.value)))
        if isinstance(f, ast.Name) and f.id in ("sin", "cos"):
            out.append(("sincos", "%s(%s)" % ("cos" if f.id == "sin" else "sin", u(node.args[0]))))
        if isinstance(f, ast.Attribute) and f.attr in ("plus", "minus") and len(node.args) == 1:
            out.append(("plusminus", "%s.%s(%s)" % (u(f.value), "minus" if f.attr == "plus" else "plus", u(node.args[0]))))
        if len(node.args) == 2 and not node.keywords:
            out.append(("swap-args", "%s(%s, %s)" % (u(f), u(node.args[1]), u(node.args[0]))))
    return out


def stmt_variants(node):
    if isinstance(node, (ast.AugAssign, ast.Expr)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        return [("drop-stmt", "pass")]
    if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Attribute):
        return [("drop-assign", "pass")]
    if isinstance(node, ast.If):
        return []
    return []


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    doc = set()
    ann = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            doc.add(id(n.value))
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if a is not None and isinstance(a, ast.AST):
                ann |= {id(x) for x in ast.walk(a)}
    for n in ast.walk(tree):
        if id(n) in doc or id(n) in ann or not hasattr(n, "lineno"):
            continue
        vs = variants(n) if isinstance(n, ast.expr) else stmt_variants(n)
        if isinstance(n, (ast.If, ast.While)):
            a, b = seg(src, n.test)
            if isinstance(n, ast.If):
                yield n.lineno, "if-false", src[:a] + "False" + src[b:], src[a:b]
                yield n.lineno, "if-true", src[:a] + "True" + src[b:], src[a:b]
        for label, new in vs:
            a, b = seg(src, n)
            if src[a:b] != new:
                yield n.lineno, label, src[:a] + new + src[b:], "%s -> %s" % (src[a:b].replace("\n", " ")[:90], new.replace("\n", " ")[:90])


def numeric_names(fn):
    """source text of sub-expressions of a function that hold numbers, with the line they are known from"""
    out = {}

    def add(e, line):
        if isinstance(e, (ast.Name, ast.Attribute)) and isinstance(e.ctx, ast.Load):
            t = ast.unparse(e)
            if t.split(".")[-1] not in ("pi", "e") and not t.split(".")[0][0].isupper() and not t.isupper():
                out.setdefault(t, line)
    for n in ast.walk(fn):
        if isinstance(n, ast.BinOp):
            add(n.left, n.lineno)
            add(n.right, n.lineno)
        elif isinstance(n, ast.Compare):
            add(n.left, n.lineno)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("sin", "cos", "sqrt", "tan", "asin", "acos", "atan2", "floor", "abs", "log"):
            for x in n.args:
                add(x, n.lineno)
    for a in fn.args.args:
        if a.annotation is not None and ast.unparse(a.annotation) in ("float", "int"):
            out[a.arg] = 0
        elif a.annotation is not None and "Vector3D" in ast.unparse(a.annotation):
            for c in "xyz":
                out["%s.%s" % (a.arg, c)] = 0
        elif a.annotation is not None and "Epoch" in ast.unparse(a.annotation):
            out[a.arg + ".value - 51544.5"] = 0
        elif a.annotation is not None and "GCRF" in ast.unparse(a.annotation):
            for c in ("position.x", "position.z", "velocity.y", "velocity.z"):
                out["%s.%s" % (a.arg, c)] = 0
    if any(a.arg == "self" for a in fn.args.args) and fn.name not in ("__init__",):
        pass
    return out


CONDS = ["%s < 0", "%s > 0", "abs(%s) < 1e-3", "%s == 0", "abs(%s) > 3.15", "abs(%s) > 1", "abs(%s) < 0.1"]
# written beside the mutated package: leaves a mark when the condition was ever true, so that a miss is either a workload
# that never got there (or an impossible condition) or a monitor that did not notice
HIT = """import os
_seen = [False]


def hit(c):
    if c and not _seen[0]:
        _seen[0] = True
        open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "vphit.mark"), "a").close()
    return c
"""


def conditional(path, rng):
    """mutations that only act under a condition on the inputs or intermediate values of the function"""
    src = open(path).read()
    tree = ast.parse(src)
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        names = numeric_names(fn)
        if not names:
            continue
        skip = set()
        for n in ast.walk(fn):
            for f in ("annotation", "returns"):
                a = getattr(n, f, None)
                if isinstance(a, ast.AST):
                    skip |= {id(x) for x in ast.walk(a)}
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                skip.add(id(n.value))
        for n in ast.walk(fn):
            if not isinstance(n, ast.expr) or id(n) in skip:
                continue
            vs = [v for v in variants(n) if v[0] not in ("const-slight",)]
            known = [t for t, line in names.items() if line < n.lineno or t in {ast.unparse(x) for x in ast.walk(n) if isinstance(x, (ast.Name, ast.Attribute))}]
            if not vs or not known:
                continue
            for label, new in vs:
                c = rng.choice(CONDS) % ("(%s)" % rng.choice(known))
                a, b = seg(src, n)
                old = src[a:b]
                yield n.lineno, "cond-" + label, src[:a] + "((%s) if __import__('vphit').hit(%s) else (%s))" % (new, c, old) + src[b:], "%s -> %s IF %s" % (old.replace("\n", " ")[:90], new.replace("\n", " ")[:90], c)


def trial(job):
    rel, line, label, text, what, full = job
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree(REPO + "/src", d + "/src")
        shutil.copytree(REPO + "/tests", d + "/tests")
        open(os.path.join(d, rel), "w").write(text)
        open(d + "/src/vphit.py", "w").write(HIT)
        env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=30)
            if p.returncode:
                return dict(file=rel, line=line, kind=label, what=what, tests="fail")
        except subprocess.TimeoutExpired:
            return dict(file=rel, line=line, kind=label, what=what, tests="timeout")
        if os.path.exists(d + "/src/vphit.mark"):
            os.unlink(d + "/src/vphit.mark")
        first = ORDER.get(os.path.basename(rel), "").split()
        rest = [x for x in PROPS if x not in first]
        caught, other = [], []
        for pid in first + rest:
            env = dict(os.environ, OPENSPACE_SRC=d + "/src", VERIF_EVIDENCE=d + "/ev")
            try:
                p = subprocess.run([sys.executable, ROOT + "/check.py", pid, "--only-worker", "0"], cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 99
            if rc == 1:
                caught.append(pid)
                if not full:
                    break
            elif rc:
                other.append("%s:%d" % (pid, rc))
        for pid in first if not caught else []:  # one worker sees an eighth of the workload: give the file's own checks all of it
            p = subprocess.run([sys.executable, ROOT + "/check.py", pid], cwd=ROOT, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if p.returncode == 1:
                caught.append(pid + " (all workers)")
                break
        return dict(file=rel, line=line, kind=label, what=what, tests="pass", caught=caught, other=other, reached=os.path.exists(d + "/src/vphit.mark"))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--files", default=".")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--full", action="store_true")
    ap.add_argument("--conditional", action="store_true")
    ap.add_argument("--jobs", type=int, default=8)
    a = ap.parse_args()
    jobs = []
    for base, _, names in os.walk(REPO + "/src/openspace"):
        for n in sorted(names):
            p = os.path.join(base, n)
            rel = os.path.relpath(p, REPO)
            if n.endswith(".py") and re.search(a.files, rel):
                seen = set()
                for line, label, text, what in (conditional(p, random.Random(a.seed)) if a.conditional else mutants(p)):
                    if text in seen:
                        continue
                    seen.add(text)
                    try:
                        compile(text, p, "exec")
                    except SyntaxError:
                        continue
                    jobs.append((rel, line, label, text, what, a.full))
    random.Random(a.seed).shuffle(jobs)
    if a.sample:
        jobs = jobs[:a.sample]
    print(len(jobs), "mutants", flush=True)
    tally = {}
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "w") as f:
        for r in ex.map(trial, jobs):
            k = r["tests"] if r["tests"] != "pass" else ("caught" if r["caught"] else "MISSED")
            tally[k] = tally.get(k, 0) + 1
            f.write(json.dumps(r) + "\n")
            f.flush()
            if k == "MISSED":
                print("MISSED", "reached" if r["reached"] else "-", r["file"], r["line"], r["kind"], r["what"], r["other"], flush=True)
    print(tally)


if __name__ == "__main__":
    main()
