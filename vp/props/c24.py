"""C24 totality: every operation terminates with finite numbers on its whole domain (floating-point and exception sanitizer)"""
import datetime
import math
import random
import sys

from openspace.bodies.artificial import Spacecraft
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.positions import LLA, PositionConvert, SphericalPosition
from openspace.coordinates.states import GCRF, IJK, StateConvert
from openspace.estimation.iod import Gauss
from openspace.math.functions import EquationsOfMotion as EQ
from openspace.math.linalg import Vector3D
from openspace.planning.maneuvers import VisViva
from openspace.propagators.relative import Hill
from openspace.time import Epoch

from .. import core, gen, ops, ref

RULE = ("every catalogued operation on degenerate operands (parallel, antiparallel and axis-aligned vectors, lengths 1e-50..1e50, diagonal and permutation matrices, epochs of years 1..9999, "
        "whole days, exact poles, circular, equatorial and near-parabolic orbits), spacecraft looking exactly along the Sun, Moon, Earth and velocity directions, and missions started from such "
        "states; every result and every touched object is walked for numbers that are not finite; non-trivial when the operands are new")
ASSUMPTIONS = ["directions are of non-zero vectors, inverses of invertible matrices, looks between spacecraft at different places", "lengths stay within 1e-50..1e50 so that squares neither overflow nor vanish",
               "a target exactly towards the Sun shows no lit side, so its magnitude is not judged", "exceptions and non-finite values that stay inside the package are counted, not judged"]
PI, TAU = math.pi, 2 * math.pi
TOOL = 4
LO, HI = -678575.0, 2973483.0


def run(mon, rng, tier, worker, workers):
    mon.need("result-finite", "operands-finite", "scalar-finite", "look-finite", "mission-finite", "orbit-finite", "place-finite", "gauss-finite")
    san = Sanitizer(mon)
    san.attach()
    try:
        k = 12 if tier == "quick" else 120
        for _ in range(k):
            for o in ops.OPS:
                mon.need("op:" + o.name)
                for _ in range(3):
                    mon.run_case(catalogue, mon, rng, o)
        n = (16000 if tier == "quick" else 200000) // workers
        for _ in range(n):
            mon.run_case(scalars, mon, rng)
            mon.run_case(scalars, mon, rng)
            mon.run_case(orbits, mon, rng)
            mon.run_case(places, mon, rng)
            mon.run_case(gauss, mon, rng)
        for _ in range(n // 5):
            mon.run_case(look, mon, rng)
        for _ in range(n // 40):
            mon.run_case(mission, mon, rng)
    finally:
        san.detach()


class Sanitizer:
    """counts, per worker, what the package returned and raised internally (evidence of what was watched)"""

    def __init__(self, mon):
        self.mon, self.returns, self.odd, self.raised = mon, 0, {}, {}
        self.src = core.REPO_SRC
        self.mine = {}

    def ours(self, code):
        r = self.mine.get(code)
        if r is None:
            r = self.mine[code] = code.co_filename.startswith(self.src)
        return r

    def attach(self):
        M = sys.monitoring
        M.use_tool_id(TOOL, "openspace-float-sanitizer")

        def on_return(code, off, value):
            if not self.ours(code):
                return M.DISABLE
            if type(value) is float:
                self.returns += 1
                if value - value != 0.0:
                    self.odd[code.co_qualname] = self.odd.get(code.co_qualname, 0) + 1

        def on_raise(code, off, exc):
            if self.ours(code):
                k = "%s:%s" % (code.co_qualname, type(exc).__name__)
                self.raised[k] = self.raised.get(k, 0) + 1

        M.register_callback(TOOL, M.events.PY_RETURN, on_return)
        M.register_callback(TOOL, M.events.RAISE, on_raise)
        M.set_events(TOOL, M.events.PY_RETURN | M.events.RAISE)

    def detach(self):
        sys.monitoring.set_events(TOOL, 0)
        sys.monitoring.free_tool_id(TOOL)
        w = self.mon.worker
        self.mon.stat("float_returns_worker_%d" % w, self.returns)
        self.mon.stat("internal_non_finite_worker_%d" % w, self.odd)
        self.mon.stat("internal_exceptions_worker_%d" % w, self.raised)


# ---- oracle -------------------------------------------------------------------------------------------------
def odd(o, path="result", seen=None):
    """path of the first number that is not finite inside a value, or None"""
    if isinstance(o, bool) or o is None or isinstance(o, str):
        return None
    if isinstance(o, int):
        return None
    if isinstance(o, complex):
        return path + " is complex"
    if isinstance(o, float):
        return None if math.isfinite(o) else "%s = %r" % (path, o)
    seen = set() if seen is None else seen
    if id(o) in seen:
        return None
    seen.add(id(o))
    if isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            r = odd(x, "%s[%d]" % (path, i), seen)
            if r:
                return r
    elif ops.is_ours(o) and not isinstance(o, type):
        for k, x in ops.public(o).items():
            r = odd(x, path + "." + k, seen)
            if r:
                return r
    return None


def finite(mon, kind, what, o):
    r = odd(o)
    return mon.check(kind, r is None, "%s: %s" % (what, r))


# ---- degenerate operands --------------------------------------------------------------------------------------
def h_ep(r):
    k = r.randrange(5)
    if k == 0:
        return ("EP", r.uniform(LO, HI))
    if k == 1:
        return ("EP", float(r.randint(int(LO), int(HI))))
    if k == 2:
        return ("EP", r.randint(int(LO), int(HI)) + gen.OFFSET + r.choice([0.0, 1e-9, -1e-9]))
    if k == 3:
        return ("EP", r.choice([0.0, 0.5, -0.5, 51544.5, 51544.0, 51544.5 + gen.OFFSET, 15019.5, -2400000.5 + 2400000.5, -0.0, LO, HI]))
    return ("EP", gen.epoch(r))


def h_v3(r):
    k = r.randrange(4)
    d = gen.direction(r)
    if k == 0:
        return ("V3",) + ref.scale(d, gen.logu(r, 1e-50, 1e50))
    if k == 1:
        return ("V3",) + tuple(float(r.choice([-2, -1, 1, 2, 3])) if r.random() < 0.7 else 0.0 for _ in range(2)) + (float(r.choice([-1, 1, 2])),)
    return ("V3",) + ref.scale(d, gen.logu(r, 1e-6, 1e8))


def h_pair(r):
    v = h_v3(r)
    x = v[1:]
    k = r.randrange(8)
    if k == 0:
        w = ref.scale(x, gen.logu(r, 1e-6, 1e6))
    elif k == 1:
        w = ref.scale(x, -gen.logu(r, 1e-6, 1e6))
    elif k == 2:
        w = x
    elif k == 3:
        w = tuple(-c for c in x)
    elif k == 4:
        w = ref.add(ref.scale(x, r.choice([-1.0, 1.0])), ref.scale(gen.direction(r), ref.norm(x) * gen.logu(r, 1e-17, 1e-6)))
    elif k == 5:
        d = gen.direction(r)
        w = ref.cross(x, d)
        n = ref.norm(w)
        w = ref.scale(w, 1 / n) if n > 0 else x
    else:
        w = h_v3(r)[1:]
    return (v, ("V3",) + tuple(w))


def h_m3(r):
    """invertible 3x3: diagonal, permutation, rotation, triangular, random"""
    k = r.randrange(5)
    s = gen.logu(r, 1e-12, 1e12)
    d = [s * r.choice([-1, 1]) * gen.logu(r, 1e-3, 1e3) for _ in range(3)]
    if k == 0:
        rows = [[d[0], 0.0, 0.0], [0.0, d[1], 0.0], [0.0, 0.0, d[2]]]
    elif k == 1:
        p = [0, 1, 2]
        r.shuffle(p)
        rows = [[d[i] if j == p[i] else 0.0 for j in range(3)] for i in range(3)]
    elif k == 2:
        rows = [[d[0], s, s], [0.0, d[1], s], [0.0, 0.0, d[2]]]
    elif k == 3:
        rows = [list(x) for x in ref.rot3(gen.angle(r))]
    else:
        rows = [[r.uniform(-5, 5) for _ in range(3)] for _ in range(3)]
        rows[0][0] += 20
        rows[1][1] += 20
        rows[2][2] += 20
    return ("M3",) + tuple(tuple(x) for x in rows)


def h_place(r):
    """Earth-fixed position from 100 km below the surface to far above it, often exactly on an axis or in a plane of axes"""
    return ("V3",) + ref.scale(gen.direction(r), gen.logu(r, 6380, 5e5) if r.random() < 0.8 else r.choice([6378.137, 6378.137 + 1e-9, 42164.0, 6400.0]))


def h_lla(r):
    lat = r.choice([PI / 2, -PI / 2, 0.0, -0.0, r.uniform(-PI / 2, PI / 2), r.choice([-1, 1]) * (PI / 2 - gen.logu(r, 1e-16, 1e-2)), gen.logu(r, 1e-300, 1e-3)])
    return ("LLA", lat, gen.angle(r), r.choice([0.0, 0.0, r.uniform(-100, 0), gen.logu(r, 1e-9, 4e5)]))


def h_orbit(r, e_hi=0.95):
    """elements of a bound orbit, mostly degenerate"""
    e = r.choice([0.0, 0.0, gen.logu(r, 1e-17, 1e-6), r.uniform(0, e_hi), r.uniform(0.8, e_hi)])
    rp = r.choice([gen.logu(r, 6450, 40000), 6500.0, 42164.0 * (1 - e) if e < 0.8 else 6500.0])
    q = lambda: r.choice([0.0, PI / 2, PI, 3 * PI / 2, TAU, gen.angle(r)])
    i = r.choice([0.0, PI, PI / 2, gen.logu(r, 1e-17, 1e-6), PI - gen.logu(r, 1e-16, 1e-6), r.uniform(0, PI)])
    return (rp / (1 - e), e, i, q(), q(), q())


def h_rv(r, e_hi=0.6):
    """position and velocity of a bound orbit; exact axis-aligned circular states included"""
    if r.random() < 0.4:
        a = gen.logu(r, 6600, 45000)
        v = math.sqrt(ref.MU / a)
        ax = [0, 1, 2]
        r.shuffle(ax)
        p, q = [0.0] * 3, [0.0] * 3
        p[ax[0]] = r.choice([-1, 1]) * a
        q[ax[1]] = r.choice([-1, 1]) * v
        return tuple(p), tuple(q)
    return ref.elements_to_rv(*h_orbit(r, e_hi))


def h_gcrf(r, t=None):
    p, v = h_rv(r)
    return ("GCRF", h_ep(r)[1] if t is None else t, p, v, r.choice([0.0, 0.02]), r.choice([(0.0, 0.0, 0.0), (1e-6, 0.0, 0.0)]), r.random() < 0.7)


def h_sc(r):
    return ("SC", h_gcrf(r), gen.logu(r, 1e-3, 0.02), r.uniform(0.05, 0.9), r.choice(["lvlh", "lvlh", "solar"]), 600.0, r.choice([0.0, 200.0]))


def h_rk4(r):
    return ("RK4", h_gcrf(r), r.choice([300, -300, 60.0, 1e-3]))


def h_ijk(r):
    return ("IJK", h_ep(r)[1]) + tuple(h_rv(r, 0.9))


def h_itrf(r):
    l = h_lla(r)
    return ("ITRF", h_ep(r)[1], ref.lla_to_itrf(l[1], l[2], max(0.0, min(l[3], 10.0))), (0.0, 0.0, 0.0))


def h_gob(r):
    return ("GOB", h_itrf(r), ref.scale(gen.direction(r), gen.logu(r, 1, 5e4)), 0.0, 0.0)


def h_sob(r):
    return ("SOB", h_gcrf(r), ref.scale(gen.direction(r), gen.logu(r, 1e-3, 5e4)), r.choice([0.0, 0.1]), r.choice([0.0, 1e-5]))


def h_two(r):
    a = h_sc(r)
    g = a[1]
    p = ref.add(g[2], ref.scale(aim(r, g[1], g[2], g[3]), gen.logu(r, 1e-3, 3000)))
    return (a, ("SC", ("GCRF", g[1], p, g[3], 0.0, (0.0, 0.0, 0.0), True), gen.logu(r, 1e-3, 0.02), r.uniform(0.05, 0.9), "lvlh", 600.0, 200.0))


def aim(r, t, p, v):
    """a direction: exactly to or away from Sun, Moon, Earth, along the velocity or orbit normal, or close to one of these"""
    d = r.choice([ref.sub(ref.sun(t), p), ref.sub(ref.moon(t), p), ref.scale(p, -1.0), v, ref.cross(p, v), gen.direction(r)])
    d = ref.scale(ref.unit(d), r.choice([-1.0, 1.0]))
    if r.random() < 0.3:
        d = ref.unit(ref.add(d, ref.scale(gen.direction(r), gen.logu(r, 1e-16, 1e-5))))
    return d


def _years(r):
    y = r.choice([1, 2, 3, 4, 99, 100, 101, 399, 400, 401, 1582, 1858, 1900, 1999, 2000, 2100, 9998, 9999, r.randint(1, 9999)])
    d = datetime.date(y, r.choice([1, 2, 3, 12, r.randint(1, 12)]), 1)
    last = (datetime.date(y + (d.month == 12), d.month % 12 + 1, 1) - datetime.timedelta(1)).day if (y, d.month) != (9999, 12) else 31
    return (y, d.month, r.choice([1, last, r.randint(1, last)]), r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59]), r.choice([0, 0.0, 59.999999999, 60.0, r.uniform(0, 60)]))


def draws():
    """hostile operand generators by operation; the others keep their catalogue generator"""
    D = {}
    for o in ops.OPS:
        n = o.name
        if n.startswith("Vector3D.") and n.split(".")[1] in ("plus", "minus", "dot", "cross", "angle"):
            D[n] = h_pair
        elif n in ("Vector3D.copy", "Vector3D.magnitude", "Vector3D.normalized", "Vector3D.__str__", "SphericalPosition.from_cartesian"):
            D[n] = lambda r: (h_v3(r),)
        elif n in ("Vector3D.with_noise",):
            D[n] = lambda r: (("V3",) + ref.scale(gen.direction(r), gen.logu(r, 1e-3, 1e6)), r.choice([0.0, 1.0, 1e3]), r.choice([0.0, 1e-6, 1.0, 3.0]))
        elif n in ("Vector3D.with_angular_noise", "Vector3D.with_magnitude_noise"):
            D[n] = lambda r: (("V3",) + ref.scale(gen.direction(r), gen.logu(r, 1e-3, 1e6)), r.choice([0.0, 1e-6, 1.0, 3.0]))
        elif n == "Vector3D.rotation_about_axis":
            D[n] = lambda r: h_pair(r) + (r.choice([gen.angle(r), -gen.angle(r), 0.0, 1e6]),)
        elif n == "Vector3D.rotation_matrix":
            D[n] = lambda r: (h_v3(r), r.choice([gen.angle(r), -gen.angle(r), 0.0, 1e6]))
        elif n in ("Matrix3D.inverse", "Matrix3D.determinant", "Matrix3D.adjugate", "Matrix3D.cofactor"):
            D[n] = lambda r: (h_m3(r),)
        elif n == "Epoch.from_gregorian":
            D[n] = _years
        elif n.startswith("Epoch.") and n != "Epoch.plus_days" or n in ("Sun.get_position", "Moon.get_position", "Earth.rotation", "Earth.precession", "Earth.nutation", "Earth.obliquity_of_ecliptic_at_epoch"):
            D[n] = lambda r: (h_ep(r),)
        elif n.startswith(("gcrf.to_", "itrf.to_")) and n not in ("gcrf.to_hcw", "itrf.to_lla"):
            D[n] = lambda r: (h_place(r), h_ep(r))
        elif n in ("itrf.to_lla", "GroundSite.from_itrf_position"):
            D[n] = lambda r: (h_place(r),)
        elif n in ("lla.to_itrf", "GroundSite", "LLA.copy"):
            D[n] = lambda r: (h_lla(r),)
        elif n == "enz.to_itrf":
            D[n] = lambda r: (h_lla(r), h_v3(r))
        elif n == "GroundSite.enz_position":
            D[n] = lambda r: (("SITE", h_lla(r)), h_place(r))
        elif n == "GroundSite.angles_and_range":
            D[n] = lambda r: (("SITE", h_lla(r)), h_sc(r))
        elif n.startswith("GCRF.") or n in ("HCW.frame_matrix", "RK4", "Spacecraft"):
            D[n] = lambda r: (h_gcrf(r),)
        elif n == "ClassicalElements.from_ijk":
            D[n] = lambda r: (h_ijk(r),)
        elif n.startswith("ClassicalElements."):
            D[n] = lambda r: (("COE", h_ep(r)[1]) + h_orbit(r),)
        elif n in ("SpaceObservation.epoch", "SpaceObservation.ijk_position"):
            D[n] = lambda r: (h_sob(r),)
        elif n.startswith("GroundObservation.") and n != "GroundObservation.from_angles_and_range":
            D[n] = lambda r: (h_gob(r),)
        elif n == "GroundObservation.from_angles_and_range":
            D[n] = lambda r: (h_itrf(r), gen.angle(r), r.choice([PI / 2, -PI / 2, 0.0, r.uniform(-1.5, 1.5)]), gen.logu(r, 1e-3, 1e5), 0.0, 0.0)
        elif n == "RK4.step":
            D[n] = lambda r: (h_rk4(r),)
        elif n in ("RAAN.from_w",):
            D[n] = lambda r: (("V3",) + r.choice([(0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (-0.0, 0.0, 1.0), gen.direction(r)]),)
        elif n == "U.from_r_w":
            D[n] = _u_w
        elif n == "EA.from_ma_e":
            D[n] = lambda r: (r.choice([0.0, PI, -PI, TAU, -TAU, 1e3 * r.uniform(-1, 1), gen.angle(r), -gen.angle(r)]), r.choice([0.0, 0.99, r.uniform(0, 0.99), gen.logu(r, 1e-17, 1e-3)]))
        elif n == "E.from_a_p":
            D[n] = lambda r: (lambda a: (a, r.choice([a, a * (1 + 2 ** -52), a * (1 - 2 ** -53), a * r.uniform(0.01, 1)])))(gen.logu(r, 1e-3, 1e6))
        elif n in ("Spacecraft.detect", "Spacecraft.visual_magnitude", "Spacecraft.sun_angle", "Spacecraft.moon_angle", "Spacecraft.earth_angle", "Spacecraft.range", "Spacecraft.target_vector",
                   "Spacecraft.hill_position", "Spacecraft.observe_wfov", "Spacecraft.observe_nfov", "Spacecraft.track_state", "Spacecraft.acquire"):
            D[n] = h_two
        elif n.startswith("Spacecraft.") and n.split(".")[1] in ("area", "srp_scalar", "total_mass", "sma", "velocity", "position", "sun_vector", "moon_vector", "earth_vector", "current_state", "current_epoch",
                                                               "track_lvlh", "track_sun", "update_attitude", "step"):
            D[n] = lambda r: (h_sc(r),)
        elif n == "Spacecraft.impulsive_maneuver":
            D[n] = lambda r: (h_sc(r), ("V3",) + r.choice([(0.0, 0.0, 0.0), ref.scale(gen.direction(r), gen.logu(r, 1e-12, 10))]))
        elif n == "Spacecraft.finite_maneuver":
            D[n] = lambda r: (("SC", h_gcrf(r), 0.005, 0.3, "lvlh", 600.0, 200.0), ("V3",) + r.choice([(0.0, 0.0, 0.0), ref.scale(gen.direction(r), gen.logu(r, 1e-12, 0.02))]))
        elif n in ("Hill.system_matrix", "Hill.step_by_seconds"):
            D[n] = lambda r: (ops.d_hill(r), r.choice([0.0, -0.0, 1e-9, 86400.0, -86400.0, 1e8, r.uniform(-1e6, 1e6)]))
        elif n == "Hohmann":
            D[n] = lambda r: (lambda a: (a, r.choice([a, a * (1 + 1e-16), gen.logu(r, 6400, 1e6), 2 * a])))(gen.logu(r, 6400, 1e6))
    return D


def _u_w(r):
    w = r.choice([(0.0, 0.0, 1.0), (0.0, 0.0, -1.0), gen.direction(r)])
    d = ref.cross(w, gen.direction(r))
    n = ref.norm(d)
    if n < 1e-9:
        d, n = (1.0, 0.0, 0.0) if abs(w[2]) > 0.5 else (0.0, 0.0, 1.0), 1.0
    return (("V3",) + ref.scale(d, 7000.0 / n), ("V3",) + w)


DRAW = draws()


def catalogue(mon, rng, o):
    d = DRAW[o.name](rng) if o.name in DRAW and rng.random() < 0.85 else o.descs(rng)
    if o.name == "Spacecraft.visual_magnitude":
        g, h = d[0][1], d[1][1]
        if ref.angle(ref.sub(h[2], g[2]), ref.sub(ref.sun(g[1]), g[2])) < 1e-3:
            return
    mon.case(o.name, d)
    objs = [ops.build(x) for x in d]
    random.seed(rng.random())
    res = mon.call(o.name, o.fn, *objs)
    mon.obs["op:" + o.name] += 1
    finite(mon, "result-finite", o.name, res)
    finite(mon, "operands-finite", o.name, objs)


# ---- scalar formulas -----------------------------------------------------------------------------------------
def scalars(mon, rng):
    mu = rng.choice([ref.MU, 4902.8, 1.327e11, gen.logu(rng, 1, 1e12)])
    a = gen.logu(rng, 10, 1e7)
    e = rng.choice([0.0, gen.logu(rng, 1e-17, 1e-6), rng.uniform(0, 0.99), 0.99])
    nu = gen.angle(rng)
    mon.case("scalars", mu, a, e, nu)
    c = lambda name, fn, *x: _sc(mon, name, fn, *x)
    b = c("B.from_a_e", EQ.B.from_a_e, a, e)
    p = c("P.from_a_e", EQ.P.from_a_e, a, e)
    c("P.from_a_b", EQ.P.from_a_b, a, b)
    c("E.from_a_b", EQ.E.from_a_b, a, b)
    c("E.from_a_c", EQ.E.from_a_c, a, a * e)
    c("E.from_a_p", EQ.E.from_a_p, a, p)
    c("F.from_a_b", EQ.F.from_a_b, a, b)
    r = a * (1 - e * e) / (1 + e * math.cos(nu))
    c("R", EQ.V.from_a_mu_r, a, mu, r)
    v = c("V.from_mu_r_e_nu", EQ.V.from_mu_r_e_nu, mu, r, e, nu)
    xi = c("XI.from_mu_a", EQ.XI.from_mu_a, mu, a)
    c("XI.from_mu_r_v", EQ.XI.from_mu_r_v, mu, r, v)
    c("V.from_mu_r_xi", EQ.V.from_mu_r_xi, mu, r, xi)
    tau = c("TAU.from_a_mu", EQ.TAU.from_a_mu, a, mu)
    n = c("N.from_a_mu", EQ.N.from_a_mu, a, mu)
    c("N.from_tau", EQ.N.from_tau, tau)
    c("A.from_mu_n", EQ.A.from_mu_n, mu, n)
    c("A.from_mu_tau", EQ.A.from_mu_tau, mu, tau)
    h = c("H.from_mu_p", EQ.H.from_mu_p, mu, p)
    c("P.from_mu_h", EQ.P.from_mu_h, mu, h)
    c("H.from_r_v_phi", EQ.H.from_r_v_phi, r, v, nu)
    ea = c("EA.from_ma_e", EQ.EA.from_ma_e, rng.choice([nu, -nu, nu + TAU * rng.randint(-5, 5)]), e)
    c("NU.from_e_ea", EQ.NU.from_e_ea, e, ea)
    c("MA.from_ea_e", EQ.MA.from_ea_e, ea, e)
    c("W.from_u_nu", EQ.W.from_u_nu, gen.angle(rng), nu)
    c("VisViva.circular_velocity", VisViva.circular_velocity, r)
    c("VisViva.eccentric_velocity", VisViva.eccentric_velocity, r, a)


def _sc(mon, name, fn, *x):
    y = mon.call(name, fn, *x)
    finite(mon, "scalar-finite", name, y)
    return y


# ---- orbits: states to elements and back ---------------------------------------------------------------------
def orbits(mon, rng):
    t = h_ep(rng)[1]
    p, v = h_rv(rng, 0.95)
    mon.case("orbit", t, p, v)
    c = mon.call("from_ijk", ClassicalElements.from_ijk, IJK(Epoch(t), Vector3D(*p), Vector3D(*v)))
    finite(mon, "orbit-finite", "elements", c)
    finite(mon, "orbit-finite", "state of elements", mon.call("to_ijk", c.to_ijk))
    g = GCRF(Epoch(t), Vector3D(*p), Vector3D(*v))
    finite(mon, "orbit-finite", "derivative", mon.call("derivative", g.derivative))
    q = ref.add(p, ref.scale(aim(rng, t, p, v), gen.logu(rng, 1e-6, 6000)))
    if ref.norm(q) > 6400:
        o = GCRF(Epoch(t), Vector3D(*q), Vector3D(*v))
        hcw = mon.call("to_hcw", StateConvert.gcrf.to_hcw, g, o)
        finite(mon, "orbit-finite", "relative state", hcw)
        finite(mon, "orbit-finite", "inertial state", mon.call("to_gcrf", StateConvert.hcw.to_gcrf, hcw, g))
    hcw = mon.call("to_hcw", StateConvert.gcrf.to_hcw, g, g)
    finite(mon, "orbit-finite", "own relative state", hcw)
    prop = mon.call("Hill", Hill, hcw, gen.logu(rng, 6400, 1e6))
    mon.call("step_by_seconds", prop.step_by_seconds, rng.choice([0.0, 600.0, -1e7]))
    finite(mon, "orbit-finite", "Hill", prop)


# ---- places on and above the Earth ----------------------------------------------------------------------------
def places(mon, rng):
    l = h_lla(rng)[1:]
    t = h_ep(rng)[1]
    mon.case("place", l, t)
    lla = LLA(*l)
    x = mon.call("lla.to_itrf", PositionConvert.lla.to_itrf, lla)
    finite(mon, "place-finite", "fixed position", x)
    finite(mon, "place-finite", "geodetic", mon.call("itrf.to_lla", PositionConvert.itrf.to_lla, x))
    finite(mon, "place-finite", "spherical", mon.call("from_cartesian", SphericalPosition.from_cartesian, x))
    s = mon.call("GroundSite", GroundSite, lla)
    finite(mon, "place-finite", "site", s)
    # straight up, straight down, along the axis of the Earth, anywhere
    p = core.vec(x)
    y = rng.choice([ref.scale(p, 2.0), ref.scale(p, -1.5), (0.0, 0.0, 9000.0), (0.0, 0.0, -9000.0), ref.scale(gen.direction(rng), gen.logu(rng, 6400, 5e4))])
    finite(mon, "place-finite", "local coordinates", mon.call("enz_position", s.enz_position, Vector3D(*y)))
    g = mon.call("itrf.to_gcrf", PositionConvert.itrf.to_gcrf, Vector3D(*y), Epoch(t))
    finite(mon, "place-finite", "inertial position", g)
    w = GCRF(Epoch(t), g, Vector3D(1.0, 7.0, 0.5))
    finite(mon, "place-finite", "gravity", mon.call("acceleration_from_gravity", w.acceleration_from_gravity))


# ---- orbit determination ----------------------------------------------------------------------------------------
class Ob:
    def __init__(self, t, p):
        self.t, self.p = t, p

    def epoch(self):
        return Epoch(self.t)

    def ijk_position(self):
        return Vector3D(*self.p)


def gauss(mon, rng):
    t = gen.epoch(rng)
    el = h_orbit(rng, 0.8)
    a, e, i, O, w, M = el
    n = math.sqrt(ref.MU / a ** 3)
    arc = rng.choice([gen.logu(rng, 0.002, 0.2), rng.uniform(0.1, 3.1), PI / 2])
    p0, v0 = ref.elements_to_rv(*el)
    # advance along the orbit until the arc is flown
    lo, hi = 0.0, TAU / n
    for _ in range(60):
        mid = (lo + hi) / 2
        p = ref.elements_to_rv(a, e, i, O, w, M + n * mid)[0]
        ang = ref.angle(p0, p)
        if ref.dot(ref.cross(p0, p), ref.cross(p0, v0)) < 0:
            ang = TAU - ang
        lo, hi = (mid, hi) if ang < arc else (lo, mid)
    dt = (lo + hi) / 2
    if dt < 1.0:
        return
    p1 = ref.elements_to_rv(a, e, i, O, w, M + n * dt)[0]
    mon.case("gauss", t, el, dt)
    c = mon.call("coes_from_positions", Gauss.coes_from_positions, Ob(t, p0), Ob(t + dt / ref.DAY, p1))
    finite(mon, "gauss-finite", "elements", c)
    if c.eccentricity < 0.99:
        finite(mon, "gauss-finite", "state", mon.call("to_ijk", c.to_ijk))


# ---- spacecraft looking in degenerate directions ------------------------------------------------------------------
def craft(mon, t, p, v):
    return mon.call("Spacecraft", Spacecraft, GCRF(Epoch(t), Vector3D(*p), Vector3D(*v)))


LOOKS = ("sun_angle", "moon_angle", "earth_angle", "range", "target_vector", "visual_magnitude", "detect", "hill_position", "observe_wfov", "observe_nfov")


def look(mon, rng):
    t = gen.epoch(rng)
    p, v = h_rv(rng, 0.5)
    d = aim(rng, t, p, v)
    far = gen.logu(rng, 1e-3, 3000)
    q = ref.add(p, ref.scale(d, far))
    mon.case("look", t, p, v, d, far)
    if ref.norm(q) < 6400:
        return
    a, b = craft(mon, t, p, v), craft(mon, t, q, v)
    random.seed(rng.random())
    lit = ref.angle(d, ref.sub(ref.sun(t), p)) > 1e-3
    for n in LOOKS:
        if n == "visual_magnitude" and not lit:
            continue  # nothing of the lit side is seen: no finite magnitude exists
        finite(mon, "look-finite", n, mon.call(n, getattr(a, n), b))
    for n in rng.sample(["track_sun", "track_lvlh", "track_state", "acquire", "track_state"], 3):
        mon.call(n, getattr(a, n), *([b] if n in ("track_state", "acquire") else []))
        finite(mon, "look-finite", n, a)
    site = mon.call("GroundSite", GroundSite, LLA(*h_lla(rng)[1:]))
    finite(mon, "look-finite", "angles_and_range", mon.call("angles_and_range", site.angles_and_range, b))


# ---- missions from degenerate states ------------------------------------------------------------------------------
def mission(mon, rng):
    t = gen.epoch(rng)
    p, v = h_rv(rng, 0.3)
    d = aim(rng, t, p, v)
    q = ref.add(p, ref.scale(d, gen.logu(rng, 0.1, 200)))
    log = []
    mon.case("mission", t, p, v, q)
    mon.context = ("mission", (t, p, v, q, log))
    a, b = craft(mon, t, p, v), craft(mon, t, q, v)
    if rng.random() < 0.3:
        a.propagator.state.use_perturbations = b.propagator.state.use_perturbations = False
    random.seed(rng.random())
    mon.call("acquire", a.acquire, b)
    for _ in range(gen.length(rng, 4, 14, 5)):
        k = rng.choice(["step", "to", "to", "sun", "lvlh", "state", "impulse", "finite", "wfov", "nfov", "same"])
        now = a.propagator.state.epoch.value
        log.append(k)
        if k == "step":
            mon.call(k, a.step)
        elif k in ("to", "same"):
            x = now if k == "same" else now + rng.choice([1e-9, 300 / ref.DAY, 600 / ref.DAY, rng.uniform(-0.01, 0.02)])
            mon.call(k, a.step_to_epoch, Epoch(x))
        elif k == "sun":
            mon.call(k, a.track_sun)
        elif k == "lvlh":
            mon.call(k, a.track_lvlh)
        elif k == "state":
            mon.call(k, a.track_state, b)
        elif k == "impulse":
            mon.call(k, a.impulsive_maneuver, Vector3D(*rng.choice([(0.0, 0.0, 0.0), (0.01, 0.0, 0.0), (0.0, -0.01, 0.0), (0.0, 0.0, 0.01)])))
        elif k == "finite":
            mon.call(k, a.finite_maneuver, Vector3D(*rng.choice([(0.0, 0.0, 0.0), (0.001, 0.0, 0.0), (0.0, -0.001, 0.0), (0.0, 0.0, 0.001)])))
        else:
            if b.propagator.state.epoch.value != now:
                mon.call("to", b.step_to_epoch, Epoch(now))
            mon.call(k, a.process_wfov if k == "wfov" else a.process_nfov, b)
        finite(mon, "mission-finite", k, (a, b))
