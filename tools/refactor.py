"""Behaviour-preserving rewrites of the whole package in a scratch copy, on which every check has to stay quiet.
python3-vt tools/refactor.py [KIND ...] [--props C01,C02]   kinds: commute reassoc square recip hoist outline all"""
import argparse
import ast
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"


class Commute(ast.NodeTransformer):
    """a + b -> b + a and a * b -> b * a where both are plainly numbers (bit-identical)"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Add, ast.Mult)) and not has_str(n):
            return ast.BinOp(n.right, n.op, n.left)
        return n


def has_str(n):
    return any(isinstance(x, (ast.Constant,)) and isinstance(x.value, str) for x in ast.walk(n)) or any(isinstance(x, (ast.List, ast.JoinedStr)) for x in ast.walk(n))


class Reassoc(ast.NodeTransformer):
    """(a + b) + c -> a + (b + c), (a * b) * c -> a * (b * c): same value up to rounding"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if has_str(n):
            return n
        for k in (ast.Add, ast.Mult):
            if isinstance(n.op, k) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, k):
                return ast.BinOp(n.left.left, k(), ast.BinOp(n.left.right, k(), n.right))
        if isinstance(n.op, ast.Div) and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult):
            return ast.BinOp(n.left.left, ast.Mult(), ast.BinOp(n.left.right, ast.Div(), n.right))
        return n


class Square(ast.NodeTransformer):
    """x ** 2 -> x * x, x * x -> x ** 2"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, (ast.Name, ast.Attribute)):
            return ast.BinOp(n.left, ast.Mult(), n.left)
        if isinstance(n.op, ast.Mult) and ast.dump(n.left) == ast.dump(n.right):
            return ast.BinOp(n.left, ast.Pow(), ast.Constant(2))
        return n


class Recip(ast.NodeTransformer):
    """a / b -> a * (1 / b) except for calendar arithmetic"""

    def visit_FunctionDef(self, n):
        if n.name in ("from_gregorian",):
            return n
        return self.generic_visit(n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and not (isinstance(n.left, ast.Constant)):
            return ast.BinOp(n.left, ast.Mult(), ast.BinOp(ast.Constant(1.0), ast.Div(), n.right))
        return n


class Hoist(ast.NodeTransformer):
    """return EXPR -> result_ = EXPR; return result_   and   x.y = EXPR -> v_ = EXPR; x.y = v_"""

    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name("result_", ast.Store())], n.value), ast.Return(ast.Name("result_", ast.Load()))]

    def visit_Assign(self, n):
        if isinstance(n.targets[0], ast.Attribute):
            return [ast.Assign([ast.Name("value_", ast.Store())], n.value), ast.Assign(n.targets, ast.Name("value_", ast.Load()))]
        return n


class Outline(ast.NodeTransformer):
    """every method body moves to a private helper that the public method calls"""

    def visit_ClassDef(self, n):
        body = []
        for s in n.body:
            body.append(s)
            if isinstance(s, ast.FunctionDef) and not s.name.startswith("__") and not any("property" in ast.unparse(d) or "setter" in ast.unparse(d) for d in s.decorator_list) \
                    and "super()" not in ast.unparse(s) and not s.args.kwonlyargs and not s.args.vararg:
                h = ast.FunctionDef("_" + n.name.lower() + "_" + s.name + "_impl", s.args, s.body, s.decorator_list, s.returns, None, type_params=[])
                stat = any("staticmethod" in ast.unparse(d) for d in s.decorator_list)
                names = [a.arg for a in s.args.args]
                if stat:
                    call = ast.Call(ast.Attribute(ast.Name(n.name, ast.Load()), h.name, ast.Load()), [ast.Name(a, ast.Load()) for a in names], [])
                else:
                    call = ast.Call(ast.Attribute(ast.Name(names[0], ast.Load()), h.name, ast.Load()), [ast.Name(a, ast.Load()) for a in names[1:]], [])
                body[-1] = h
                import copy
                args = copy.deepcopy(s.args)
                body.append(ast.FunctionDef(s.name, args, [ast.Return(call)], s.decorator_list, s.returns, None, type_params=[]))
                ha = copy.deepcopy(s.args)
                ha.defaults = []
                h.args = ha
        n.body = body
        return n


class Flip(ast.NodeTransformer):
    """a < b -> b > a; if/else branches swapped under not"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Early(ast.NodeTransformer):
    """while C: body -> while True: if not C: break; body"""

    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        return ast.While(ast.Constant(True), [ast.If(ast.UnaryOp(ast.Not(), n.test), [ast.Break()], [])] + n.body, [])


# realistic rewrites by hand: (file, old, new); the result is the same up to rounding
TEXT = [
    ("math/linalg.py", "return sqrt(self.x * self.x + self.y * self.y + self.z * self.z)", "return hypot(self.x, self.y, self.z)"),
    ("math/linalg.py", "from math import acos, cos, pi, sin, sqrt", "from math import acos, atan2, cos, hypot, pi, sin, sqrt"),
    ("math/linalg.py", "        arg = self.dot(adj_vec) / (self.magnitude() * adj_vec.magnitude())\n", "        return atan2(self.cross(adj_vec).magnitude(), self.dot(adj_vec))\n        arg = 0\n"),
    ("math/linalg.py", "gauss(self.magnitude(), range_err)", "self.magnitude() + gauss(0, 1) * range_err"),
    ("math/linalg.py", "uniform(0, 2 * pi)", "uniform(-pi, pi)"),
    ("math/linalg.py", "return self.scaled(1 / self.magnitude())", "m = self.magnitude()\n        return Vector3D(self.x / m, self.y / m, self.z / m)"),
    ("time.py", "        y = year\n", "        import datetime\n        return cls(datetime.date(year, month, day).toordinal() - 678576 + (hour * 3600 + minute * 60 + sec) / 86400)\n        y = year\n"),
    ("time.py", "total_deg = theta0 + 360.98564724 * dec_day", "total_deg = theta0 % 360 + (dec_day * 360 + dec_day * 0.98564724)"),
    ("math/functions.py", "            ea0 -= e\n        else:\n            ea0 += e\n", "            ea0 -= e\n        else:\n            ea0 = ea0 + e * sin(ma) if e < 0.8 else pi\n"),
    ("math/functions.py", "105 * cos_phi * cos_phi_squared * sin_phi", "105 * sin_phi * cos_phi ** 3"),
    ("coordinates/states.py", "            r_exponent = r_over_r**n\n", "            r_exponent = r_over_r * r_over_r if n == 2 else r_exponent * r_over_r\n"),
    ("coordinates/states.py", "        return self.position.scaled(-Earth.MU / (r_mag * r_mag * r_mag))", "        return self.position.scaled(1 / r_mag).scaled(-Earth.MU / r_mag ** 2)"),
    ("coordinates/states.py", "        phiint: float = asin(sinphiint)\n", "        phiint: float = atan2(rintrsw.z, sqrt(rintrsw.x ** 2 + rintrsw.y ** 2))\n"),
    ("propagators/inertial.py", "epoch_2 = epoch_1.plus_days(ddays)", "epoch_2 = epoch_0.plus_days(h / SECONDS_IN_DAY)"),
    ("propagators/inertial.py", "                a = dv.scaled((self.m_dot / mt) * (1 / (-log(1 - self.m_dot * dt / self.m0))))", "                a = self.thrust_direction.normalized().scaled(f / mt)"),
    ("propagators/inertial.py", "        # Reset step size\n", "        # Reset step size\n        self.state.epoch = epoch.copy()\n"),
    ("propagators/relative.py", "2 * (1 - cs) * n_inv, 0),\n            Vector6D(\n", "4 * sin(n * t / 2) ** 2 * n_inv, 0),\n            Vector6D(\n"),
    ("bodies/celestial.py", "b * 2 * sma * cma", "b * sin(2 * ma)"),
    ("bodies/celestial.py", "return Vector3D(x, y, z).rotation_about_axis(Vector3D(1, 0, 0), eps)", "return Vector3D(x, y * cos(eps) - z * sin(eps), y * sin(eps) + z * cos(eps))"),
    ("bodies/celestial.py", "        d: float = epoch.julian_value() - Epoch.J2000_JULIAN_DATE\n", "        d: float = epoch.value - 51544.5\n"),
    ("planning/maneuvers.py", "return sqrt(Earth.MU * (2 / r - 1 / a))", "return sqrt(2 * Earth.MU / r - Earth.MU / a)"),
    ("estimation/filtering.py", "self.k = self.p10.multiply_matrix_6by3(self.HT.multiply(hph.plus(self.r).inverse()))", "self.k = self.p10.multiply_matrix_6by3(self.HT).multiply(hph.plus(self.r).inverse())"),
    ("hardware/payloads.py", "return self.resolution(r) / d * r", "return self.resolution(r) * r / d"),
    ("hardware/payloads.py", "1 / self.pixels * 0.5", "0.5 / self.pixels"),
    ("bodies/artificial.py", "return (self.albedo + 1) * self.area() * BASE_IN_KILO * BASE_IN_KILO / self.total_mass()", "return (1 + self.albedo) * (self.area() * BASE_IN_KILO ** 2 / self.total_mass())"),
    ("bodies/artificial.py", "fdiff: float = (2 / 3) * target.albedo * r * r / (pi * dist * dist) * ((sin(phi) + (pi - phi) * cos(phi)))", "fdiff: float = 2 * target.albedo / (3 * pi) * (r / dist) ** 2 * (sin(phi) + (pi - phi) * cos(phi))"),
    ("bodies/artificial.py", "return self.current_state().position.copy()", "return self.propagator.state.position.copy()"),
    ("bodies/artificial.py", "return self.current_state().epoch.copy()", "return self.propagator.state.epoch.copy()"),
    ("bodies/artificial.py", "return EquationsOfMotion.A.from_mu_r_v(Earth.MU, self.position().magnitude(), self.velocity().magnitude())", "return 1 / (2 / self.position().magnitude() - self.velocity().dot(self.velocity()) / Earth.MU)"),
    ("estimation/iod.py", "base: float = 2 * (ra_mag * rb_mag + ra.dot(rb))", "base: float = 2 * ra_mag * rb_mag * (1 + ra.dot(rb) / (ra_mag * rb_mag))"),
    ("coordinates/elements.py", "ea_dot: float = (1 / r) * sqrt(Earth.MU / self.semimajor_axis)", "ea_dot: float = sqrt(Earth.MU / self.semimajor_axis) / r"),
    ("coordinates/elements.py", "cw * sin(self.inclination))\n", "cw * sin(self.inclination)).normalized()\n"),
    ("coordinates/positions.py", "        for _ in range(2):\n", "        for _ in range(4):\n"),
]

KINDS = {"text": [], "commute": [Commute], "reassoc": [Reassoc], "square": [Square], "recip": [Recip], "hoist": [Hoist], "outline": [Outline], "flip": [Flip, Early],
         "all": [Reassoc, Commute, Square, Recip, Hoist, Flip, Early, Outline]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("kinds", nargs="*", default=[])
    ap.add_argument("--props", default=",".join("C%02d" % i for i in range(1, 26)))
    ap.add_argument("--margins", action="store_true")
    a = ap.parse_args()
    for kind in a.kinds or list(KINDS):
        d = tempfile.mkdtemp(prefix="refac")
        try:
            shutil.copytree(REPO + "/src", d + "/src")
            shutil.copytree(REPO + "/tests", d + "/tests")
            for n, (f, old, new) in enumerate(TEXT if kind.startswith("text") else []):
                if kind != "text" and str(n) not in kind[4:].split("+"):
                    continue
                p = d + "/src/openspace/" + f
                c = open(p).read()
                if c.count(old) != 1:
                    print("rewrite %d: %d matches of %r" % (n, c.count(old), old))
                open(p, "w").write(c.replace(old, new))
            for base, _, names in [] if kind.startswith("text") else os.walk(d + "/src/openspace"):
                for x in names:
                    if x.endswith(".py"):
                        p = os.path.join(base, x)
                        t = ast.parse(open(p).read())
                        for tr in KINDS[kind]:
                            t = ast.fix_missing_locations(tr().visit(t))
                        open(p, "w").write(ast.unparse(ast.fix_missing_locations(t)))
            env = dict(os.environ, PYTHONPATH=d + "/src", PYTHONDONTWRITEBYTECODE="1", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
            p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(kind, "tests:", p.stdout.strip().splitlines()[-1], flush=True)
            for pid in a.props.split(","):
                env = dict(os.environ, OPENSPACE_SRC=d + "/src", VERIF_EVIDENCE=d + "/ev")
                p = subprocess.run([sys.executable, ROOT + "/check.py", pid] + (["--margins"] if a.margins else []), cwd=ROOT, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode or a.margins:
                    print(kind, pid, p.returncode, p.stdout[-1500:], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
