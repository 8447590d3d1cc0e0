"""Catalogue of openspace operations shared by the C22 (operand integrity) and C23 (history independence) monitors.

An operand is described by plain data (tuples starting with a tag), so the same operation can be built afresh in any
process.  An Op knows how to draw its operands, how to run, and which operands it is a command of (and so may change).
"""
import math
import random

from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Earth, Moon, Sun
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.positions import ENZ, LLA, PositionConvert, SphericalPosition
from openspace.coordinates.states import GCRF, HCW, IJK, ITRF, StateConvert
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.iod import Gauss
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.hardware.payloads import Camera
from openspace.math.functions import Conversions, EquationsOfMotion, LegendrePolynomial, sign
from openspace.math.linalg import Matrix3by6, Matrix3D, Matrix6by3, Matrix6D, Vector3D, Vector6D
from openspace.planning.maneuvers import Hohmann, VisViva
from openspace.propagators.inertial import RK4
from openspace.propagators.relative import Hill
from openspace.time import Epoch

from . import gen, ref

PI = math.pi


# ---- operand descriptions -----------------------------------------------------------------------------
def build(d):
    if not (isinstance(d, tuple) and d and isinstance(d[0], str) and d[0] in BUILD):
        return d
    return BUILD[d[0]](*d[1:])


def _gcrf(t, r, v, srp=0.0, th=(0.0, 0.0, 0.0), pert=True):
    s = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    s.srp_scalar, s.thrust, s.use_perturbations = srp, Vector3D(*th), pert
    return s


def _sc(g, radius, albedo, mode, dry, prop):
    s = Spacecraft(build(g))
    s.body_radius, s.albedo, s.dry_mass, s.propellant_mass = radius, albedo, dry, prop
    if mode == "solar":
        s.track_sun()
    return s


def _rk4(g, step):
    p = RK4(build(g))
    p.step_size = step
    return p


BUILD = {
    "EP": Epoch, "V3": Vector3D, "V6": Vector6D,
    "M3": lambda *r: Matrix3D(*[Vector3D(*x) for x in r]), "M36": lambda *r: Matrix3by6(*[Vector6D(*x) for x in r]),
    "M63": lambda *r: Matrix6by3(*[Vector3D(*x) for x in r]), "M6": lambda *r: Matrix6D(*[Vector6D(*x) for x in r]),
    "LLA": LLA, "SPH": SphericalPosition,
    "ITRF": lambda t, r, v: ITRF(Epoch(t), Vector3D(*r), Vector3D(*v)), "IJK": lambda t, r, v: IJK(Epoch(t), Vector3D(*r), Vector3D(*v)),
    "HCW": lambda t, r, v: HCW(Epoch(t), Vector3D(*r), Vector3D(*v)), "GCRF": _gcrf,
    "COE": lambda t, *a: ClassicalElements(Epoch(t), *a),
    "SOB": lambda g, d, re, ae: SpaceObservation(build(g), Vector3D(*d), re, ae),
    "GOB": lambda s, d, re, ae: GroundObservation(build(s), Vector3D(*d), re, ae),
    "HILL": lambda h, sma: Hill(build(h), sma), "RK4": _rk4, "KF": lambda t, h: RelativeKalman(Epoch(t), build(h)),
    "SITE": lambda l: GroundSite(build(l)), "CAM": Camera, "SC": _sc,
}


# ---- drawing operands ----------------------------------------------------------------------------------
def d_ep(r):
    return ("EP", gen.epoch(r))


def d_v3(r):
    if r.random() < 0.04:  # exactly one unit long
        x = [0.0, 0.0, 0.0]
        x[r.randrange(3)] = r.choice([1.0, -1.0])
        return ("V3",) + tuple(x)
    return ("V3",) + gen.vec3(r)


def d_v3z(r):
    return ("V3", 0.0, 0.0, 0.0) if r.random() < 0.12 else d_v3(r)


def d_burn(sigma):
    return lambda r: ("V3", 0.0, 0.0, 0.0) if r.random() < 0.1 else ("V3",) + gen.burn3(r, sigma, 10.0)


def d_pos(r):
    return ("V3",) + ref.scale(gen.direction(r), gen.logu(r, 6400, 50000))


def row(r, n):
    return tuple(r.uniform(-5, 5) for _ in range(n))


def d_v6(r):
    return ("V6",) + row(r, 6)


def d_m3(r):
    return ("M3", row(r, 3), row(r, 3), row(r, 3))


def d_m36(r):
    return ("M36",) + tuple(row(r, 6) for _ in range(3))


def d_m63(r):
    return ("M63",) + tuple(row(r, 3) for _ in range(6))


def d_m6(r):
    return ("M6",) + tuple(row(r, 6) for _ in range(6))


def d_lla(r):
    return ("LLA", r.uniform(-1.5, 1.5), r.uniform(0, 6.28), r.uniform(0, 2000))


def d_sph(r):
    return ("SPH", gen.logu(r, 0.1, 1e5), r.uniform(0, 6.28), r.uniform(-1.5, 1.5))


def d_itrf(r):
    return ("ITRF", gen.epoch(r), ref.lla_to_itrf(r.uniform(-1.5, 1.5), r.uniform(0, 6.28), r.uniform(0, 5)), (0.0, 0.0, 0.0))


def d_ijk(r):
    return ("IJK", gen.epoch(r)) + ref.elements_to_rv(*gen.orbit(r))


def d_gcrf(r, t=None):
    p, v = gen.rv(r)
    return ("GCRF", gen.epoch(r) if t is None else t, p, v, r.choice([0.0, r.uniform(0, 0.1)]), r.choice([(0.0, 0.0, 0.0), tuple(r.gauss(0, 1e-6) for _ in range(3))]),
            r.random() < 0.8)


def d_hcw(r):
    z = (0.0, 0.0, 0.0)
    p, v = tuple(r.gauss(0, 30) for _ in range(3)), tuple(r.gauss(0, 0.02) for _ in range(3))
    return ("HCW", gen.epoch(r), z if r.random() < 0.06 else p, z if r.random() < 0.1 else v)


def d_hill(r):
    return ("HILL", d_hcw(r), r.uniform(6700, 45000))


def d_rk4(r):
    g = d_gcrf(r)
    return ("RK4", g, r.choice([300, 60.0, 10.0, r.uniform(1, 400)]))


def d_sc(r, t=None):
    return ("SC", d_gcrf(r, t), gen.logu(r, 1e-3, 0.02), r.uniform(0.05, 0.9), r.choice(["lvlh", "lvlh", "solar"]), r.uniform(300, 900), r.uniform(100, 400))


def d_near_sc(r, a):
    g = a[1]
    p, v = gen.bound_nearby(r, g[2], g[3], 1, 500)
    return ("SC", ("GCRF", g[1], p, v, 0.0, (0.0, 0.0, 0.0), True), gen.logu(r, 1e-3, 0.02), r.uniform(0.05, 0.9), "lvlh", 600.0, 200.0)


def d_sob(r):
    g = d_gcrf(r)
    return ("SOB", g, gen.vec3(r, 1, 500), r.uniform(0.001, 0.5), r.uniform(1e-6, 1e-4))


def d_gob(r):
    e, n, z = r.gauss(0, 800), r.gauss(0, 800), r.uniform(50, 2000)
    return ("GOB", d_itrf(r), (e, n, z), r.uniform(0, 0.1), r.uniform(0, 1e-4))


def d_coe(r):
    return ("COE", gen.epoch(r)) + gen.orbit(r)


def d_pair(r):
    """two ground looks at one two-body orbit less than half a turn apart (equatorial frame of date)"""
    t = gen.epoch(r)
    a, e, i, O, w, M = gen.tame_orbit(r)
    n = math.sqrt(ref.MU / a ** 3)
    dt = r.uniform(0.1, 2.0) / n * (1 - e)
    out = []
    for k in (0, 1):
        tt = t + k * dt / 86400
        p, _ = ref.elements_to_rv(a, e, i, O, w, M + n * (k * dt))
        site = (r.uniform(-1.2, 1.2), r.uniform(0, 6.28), 0.0)
        s = ref.lla_to_itrf(*site)
        itrf = ref.mv(ref.rot3(ref.gmst(tt)), p)
        out.append(("GOB", ("ITRF", tt, s, (0.0, 0.0, 0.0)), ref.mv(ref.enz_axes(site[0], site[1]), ref.sub(itrf, s)), 0.0, 0.0))
    return tuple(out)


def f(lo, hi):
    return lambda r: gen.logu(r, lo, hi)


def u(lo, hi):
    """uniform, now and then exactly an identity-like value of the operation"""
    special = [float(x) for x in (0, 1, -1) if lo <= x <= hi]
    return lambda r: r.choice(special) if special and r.random() < 0.12 else r.uniform(lo, hi)


class Op:
    def __init__(self, name, draw, fn, mutates=(), weight=1.0, seeded=False, cost=1.0):
        self.name, self.draw, self.fn, self.mutates, self.weight, self.seeded = name, draw, fn, frozenset(mutates), weight, seeded

    def descs(self, rng):
        if callable(self.draw):
            return self.draw(rng)
        return tuple(g(rng) for g in self.draw)


OPS = []


def op(name, draw, fn, **k):
    OPS.append(Op(name, draw, fn, **k))


def method(name, label, *draw, **k):
    op(label + "." + name, draw, lambda o, *a: getattr(o, name)(*a), **k)


# time
op("Epoch.from_gregorian", lambda r: (r.randint(1950, 2060), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.uniform(0, 60)), Epoch.from_gregorian)
for _n in ("copy", "julian_value", "julian_centuries_past_j2000", "greenwich_hour_angle"):
    method(_n, "Epoch", d_ep)
method("plus_days", "Epoch", d_ep, u(-3, 3))
# linear algebra
for _n in ("plus", "minus", "dot", "cross"):
    method(_n, "Vector3D", d_v3z, d_v3z)
method("angle", "Vector3D", d_v3, d_v3)
for _n in ("copy", "magnitude", "normalized", "__str__"):
    method(_n, "Vector3D", d_v3)
method("scaled", "Vector3D", d_v3, u(-3, 3))
method("rotation_about_axis", "Vector3D", d_v3, d_v3, u(-7, 7))
op("Vector3D.rotation_matrix", (d_v3, u(-7, 7)), Vector3D.rotation_matrix)
method("with_noise", "Vector3D", d_v3, f(1e-3, 1), f(1e-6, 1e-2), seeded=True)
method("with_angular_noise", "Vector3D", d_v3, f(1e-6, 1e-2), seeded=True)
method("with_magnitude_noise", "Vector3D", d_v3, f(1e-3, 1), seeded=True)
for _n in ("plus", "minus", "dot"):
    method(_n, "Vector6D", d_v6, d_v6)
method("copy", "Vector6D", d_v6)
op("Vector6D.from_position_and_velocity", (d_v3, d_v3), Vector6D.from_position_and_velocity)
op("Matrix3D", (d_v3, d_v3, d_v3), Matrix3D)
op("Matrix3by6", (d_v6, d_v6, d_v6), Matrix3by6)
op("Matrix6by3", (d_v3,) * 6, Matrix6by3)
op("Matrix6D", (d_v6,) * 6, Matrix6D)
for _n in ("diagonal", "column_1", "column_2", "column_3", "transpose", "determinant", "cofactor", "adjugate", "inverse"):
    method(_n, "Matrix3D", d_m3)
method("multiply_vector", "Matrix3D", d_m3, d_v3)
method("scaled", "Matrix3D", d_m3, u(-3, 3))
method("plus", "Matrix3D", d_m3, d_m3)
method("multiply_matrix3by6", "Matrix3D", d_m3, d_m36)
for _n in ("column_1", "column_6", "transpose"):
    method(_n, "Matrix3by6", d_m36)
method("multiply_vector", "Matrix3by6", d_m36, d_v6)
method("multiply_matrix_6by3", "Matrix3by6", d_m36, d_m63)
for _n in ("column_1", "column_3", "transpose"):
    method(_n, "Matrix6by3", d_m63)
method("multiply", "Matrix6by3", d_m63, d_m3)
method("multiply_vector", "Matrix6by3", d_m63, d_v3)
method("multiply_matrix3by6", "Matrix6by3", d_m63, d_m36)
for _n in ("column_1", "column_6", "transpose", "diagonal"):
    method(_n, "Matrix6D", d_m6)
for _n in ("plus", "minus", "multiply_matrix"):
    method(_n, "Matrix6D", d_m6, d_m6)
method("multiply_vector", "Matrix6D", d_m6, d_v6)
method("multiply_matrix_6by3", "Matrix6D", d_m6, d_m63)
op("Matrix6D.identity", (), Matrix6D.identity)
# scalar formulas
op("sign", (u(-2, 2),), sign)
op("LegendrePolynomial", (u(-1.5, 1.5),), LegendrePolynomial)
op("hms_to_decimal_day", (u(0, 23), u(0, 59), u(0, 60)), Conversions.hms_to_decimal_day)
op("dms_to_radians", (u(-359, 359), u(0, 59), u(0, 60)), Conversions.dms_to_radians)
_E = EquationsOfMotion
op("EA.from_ma_e", (u(-20, 20), u(0, 0.95)), _E.EA.from_ma_e, weight=3)
op("NU.from_e_ea", (u(0, 0.95), u(0, 6.28)), _E.NU.from_e_ea)
op("MA.from_ea_e", (u(0, 6.28), u(0, 0.95)), _E.MA.from_ea_e)
op("E.from_a_p", lambda r: (lambda a: (a, a * r.uniform(0.1, 1)))(r.uniform(6500, 40000)), _E.E.from_a_p)
op("A.from_mu_r_v", (lambda r: ref.MU, u(6500, 9000), u(6, 8)), _E.A.from_mu_r_v)
op("H.from_r_v", (d_v3, d_v3), _E.H.from_r_v)
op("RAAN.from_w", lambda r: (("V3",) + gen.direction(r),), _E.RAAN.from_w)
op("U.from_r_w", lambda r: (d_pos(r), ("V3",) + gen.direction(r)), _E.U.from_r_w)
op("Hohmann", (u(6500, 45000), u(6500, 45000)), Hohmann)
op("VisViva.circular_velocity", (u(6500, 45000),), VisViva.circular_velocity)
# celestial bodies and frames
for _n in ("rotation", "precession", "nutation", "obliquity_of_ecliptic_at_epoch"):
    op("Earth." + _n, (d_ep,), getattr(Earth, _n), weight=2)
op("Earth.geo_radius", (), Earth.geo_radius)
op("Sun.get_position", (d_ep,), Sun.get_position, weight=4)
op("Moon.get_position", (d_ep,), Moon.get_position, weight=4)
for _n in ("to_itrf", "to_tod", "to_mod", "to_ijk"):
    op("gcrf." + _n, (d_pos, d_ep), getattr(PositionConvert.gcrf, _n), weight=2)
for _n in ("to_gcrf", "to_tod", "to_mod", "to_ijk"):
    op("itrf." + _n, (d_pos, d_ep), getattr(PositionConvert.itrf, _n), weight=2)
op("itrf.to_lla", (d_pos,), PositionConvert.itrf.to_lla)
op("lla.to_itrf", (d_lla,), PositionConvert.lla.to_itrf)
op("enz.to_itrf", (d_lla, d_v3), PositionConvert.enz.to_itrf)
op("ENZ.matrix", (u(0, 6), u(-1.5, 1.5)), ENZ.matrix)
op("SphericalPosition.from_cartesian", (d_v3,), SphericalPosition.from_cartesian)
method("to_cartesian", "SphericalPosition", d_sph)
method("copy", "LLA", d_lla)
# states
for _n, _c, _d in (("ITRF", ITRF, d_itrf), ("IJK", IJK, d_ijk), ("HCW", HCW, d_hcw), ("GCRF", GCRF, d_gcrf)):
    op(_n, (d_ep, d_v3, d_v3), _c)
    method("copy", _n, _d)
    method("vector_list", _n, _d)
op("ITRF.from_fixed", (d_ep, d_v3), ITRF.from_fixed)
op("HCW.from_state_vector", (d_v6,), HCW.from_state_vector)
op("HCW.frame_matrix", (d_gcrf,), HCW.frame_matrix)
for _n in ("acceleration_from_gravity", "acceleration_from_earth", "acceleration_from_moon", "acceleration_from_sun", "acceleration_from_srp", "acceleration_from_thrust", "sun_vector",
           "moon_vector"):
    method(_n, "GCRF", d_gcrf)
method("derivative", "GCRF", d_gcrf, weight=4)


def _near_gcrf(r):
    g = d_gcrf(r)
    p, v = gen.bound_nearby(r, g[2], g[3])
    return (g, ("GCRF", g[1], p, v))


op("gcrf.to_hcw", _near_gcrf, StateConvert.gcrf.to_hcw, weight=2)
op("hcw.to_gcrf", (d_hcw, d_gcrf), StateConvert.hcw.to_gcrf, weight=2)
op("ClassicalElements", lambda r: (d_ep(r),) + gen.orbit(r), ClassicalElements)
op("ClassicalElements.from_ijk", (d_ijk,), ClassicalElements.from_ijk, weight=2)
for _n in ("to_ijk", "perigee_vector", "semilatus_rectum_vector", "eccentric_anomaly"):
    method(_n, "ClassicalElements", d_coe)
# observations and estimation
op("SpaceObservation", (d_gcrf, d_v3, f(1e-3, 1), f(1e-6, 1e-3)), SpaceObservation)
op("GroundObservation", (d_itrf, d_v3, f(1e-3, 1), f(1e-6, 1e-3)), GroundObservation)
op("GroundObservation.from_angles_and_range", (d_itrf, u(0, 6.28), u(-1.5, 1.5), u(100, 4000), f(1e-3, 1), f(1e-6, 1e-3)), GroundObservation.from_angles_and_range)
for _n in ("epoch", "ijk_position"):
    method(_n, "SpaceObservation", d_sob)
    method(_n, "GroundObservation", d_gob)
method("gcrf_position", "GroundObservation", d_gob)
op("Gauss.coes_from_positions", d_pair, Gauss.coes_from_positions, weight=3)
op("GroundSite", (d_lla,), GroundSite)
op("GroundSite.from_itrf_position", (d_pos,), GroundSite.from_itrf_position)
method("enz_position", "GroundSite", lambda r: ("SITE", d_lla(r)), d_pos)
method("angles_and_range", "GroundSite", lambda r: ("SITE", d_lla(r)), d_sc, weight=2)
# hardware
op("Camera", (u(100, 5000), u(0.001, 0.5)), Camera)
for _n in ("resolution", "tracking_minimum"):
    method(_n, "Camera", lambda r: ("CAM", r.uniform(100, 5000), r.uniform(0.001, 0.5)), f(1, 1e4))
method("range_error", "Camera", lambda r: ("CAM", r.uniform(100, 5000), r.uniform(0.001, 0.5)), f(1, 1e4), f(1e-3, 1))
# propagators
op("RK4", (d_gcrf,), RK4)
method("thrust_vector", "RK4", d_rk4, u(0, 10))
method("step", "RK4", d_rk4, mutates=(0,), weight=2)


def _target_epoch(r):
    p = d_rk4(r)
    return (p, ("EP", p[1][1] + r.choice([0.0, r.uniform(-0.02, 0.02), r.uniform(-0.02, 0.02), r.uniform(-0.02, 0.02)])))


op("RK4.step_to_epoch", _target_epoch, lambda p, e: p.step_to_epoch(e), mutates=(0,), weight=3)
method("maneuver", "RK4", d_rk4, d_burn(0.003), u(0.003, 0.05), u(300, 900), u(200, 400), mutates=(0,), weight=2)
op("Hill", (d_hcw, u(6700, 45000)), Hill)
method("system_matrix", "Hill", d_hill, u(-9000, 9000))
method("step", "Hill", d_hill, mutates=(0,))
method("step_by_seconds", "Hill", d_hill, u(-9000, 9000), mutates=(0,))
# spacecraft
op("Spacecraft", (d_gcrf,), Spacecraft, weight=2)
for _n in ("area", "srp_scalar", "total_mass", "sma", "velocity", "position", "sun_vector", "moon_vector", "earth_vector", "current_state", "current_epoch"):
    method(_n, "Spacecraft", d_sc)


def _two(r):
    a = d_sc(r)
    return (a, d_near_sc(r, a))


for _n in ("detect", "visual_magnitude", "sun_angle", "moon_angle", "earth_angle", "range", "target_vector", "hill_position"):
    op("Spacecraft." + _n, _two, lambda o, t, _n=_n: getattr(o, _n)(t))
for _n in ("observe_wfov", "observe_nfov"):
    op("Spacecraft." + _n, _two, lambda o, t, _n=_n: getattr(o, _n)(t), seeded=True, weight=2)
for _n in ("track_lvlh", "track_sun", "update_attitude", "step"):
    method(_n, "Spacecraft", d_sc, mutates=(0,))
method("impulsive_maneuver", "Spacecraft", d_sc, d_burn(0.01), mutates=(0,), weight=2)
method("finite_maneuver", "Spacecraft", d_sc, d_burn(0.002), mutates=(0,), weight=2)


def _sc_epoch(r):
    a = d_sc(r)
    return (a, ("EP", a[1][1] + r.choice([0.0, r.uniform(-0.02, 0.02), r.uniform(-0.02, 0.02), r.uniform(-0.02, 0.02)])))


op("Spacecraft.step_to_epoch", _sc_epoch, lambda s, e: s.step_to_epoch(e), mutates=(0,), weight=3)
op("Spacecraft.track_state", _two, lambda a, b: a.track_state(b), mutates=(0,), weight=2)  # same epoch: the target stays put
op("Spacecraft.acquire", _two, lambda a, b: a.acquire(b), mutates=(0,), weight=2)


def _kf(r):
    g = d_gcrf(r)
    h = ("HILL", ("HCW", g[1], tuple(r.gauss(0, 20) for _ in range(3)), tuple(r.gauss(0, 0.01) for _ in range(3))), r.uniform(6700, 45000))
    ob = ("SOB", ("GCRF", g[1] + r.choice([0.0, r.uniform(0, 0.01), r.uniform(-0.005, 0.01)]), g[2], g[3]), gen.vec3(r, 5, 60), r.uniform(0.01, 0.5), r.uniform(1e-6, 1e-4))
    return (("KF", g[1], h), ob)


op("RelativeKalman.process", _kf, lambda k, o: k.process(o), mutates=(0,), weight=3)


def _kf_new(r):
    return (d_ep(r), d_hill(r))


op("RelativeKalman", _kf_new, RelativeKalman)


def _process(name):
    def run(a, b, t):
        a.acquire(b)
        getattr(a, name)(b)
        a.step_to_epoch(t)
        getattr(a, name)(b)
    return run


def _two_epoch(r):
    a, b = _two(r)
    return (a, b, ("EP", a[1][1] + r.uniform(0.0005, 0.01)))


op("Spacecraft.process_wfov", _two_epoch, _process("process_wfov"), mutates=(0, 1), seeded=True, weight=2)
op("Spacecraft.process_nfov", _two_epoch, _process("process_nfov"), mutates=(0, 1), seeded=True)
BY_NAME = {o.name: o for o in OPS}
assert len(BY_NAME) == len(OPS), "operation names must be unique"


def execute(name, objs, seed=None):
    o = BY_NAME[name]
    if o.seeded and seed is not None:
        random.seed(seed)
    return o.fn(*objs)


# ---- canonical views of openspace objects -------------------------------------------------------------
# the attributes that describe an object to its user; others (counters, memos a later version may add) say nothing by themselves
_ROWS = "row1 row2 row3"
ATTRIBUTES = {k: frozenset(v.split()) for k, v in {
    "Camera": "fov limits pixels resolution_factor", "Epoch": "value", "State": "epoch position vector velocity",
    "ClassicalElements": "argument_of_perigee eccentricity epoch inclination mean_anomaly raan semimajor_axis",
    "GCRF": "srp_scalar thrust use_perturbations", "ITRF": "", "HCW": "", "IJK": "", "Observation": "",
    "GroundObservation": "angular_error azimuth elevation observed_direction observer_state range range_error",
    "SpaceObservation": "angular_error declination observed_direction observer_state range range_error right_ascension",
    "GroundSite": "enz_matrix itrf_position latitude longitude", "Hill": "n sma state step_size",
    "Hohmann": "delta_v_1 delta_v_2 final_velocity initial_velocity transfer_velocity_1 transfer_velocity_2",
    "LLA": "altitude latitude longitude", "LegendrePolynomial": "p", "Vector3D": "x y z", "Vector6D": "vx vy vz x y z",
    "Matrix3D": _ROWS, "Matrix3by6": _ROWS, "Matrix6D": _ROWS + " row4 row5 row6", "Matrix6by3": _ROWS + " row4 row5 row6",
    "OpticalConstraints": "bore characterization earth moon sun_hard sun_soft vismag", "RK4": "isp m0 m_dot state step_size thrust_direction",
    "RelativeKalman": "angular_error epoch f k p00 p10 propagator q r range_error x00 x10 z", "SphericalPosition": "declination radius right_ascension",
    "Spacecraft": "albedo body_radius body_x body_y body_z dry_mass filter initial_state isp m_dot nfov pointing_accuracy propagator "
                  "propellant_mass slew_scalar slew_stop slewing steering tracked_target wfov"}.items()}


def public(o):
    """attribute names and values that describe the object, stored or computed by a property"""
    known = [ATTRIBUTES[c.__name__] for c in type(o).__mro__ if c.__name__ in ATTRIBUTES]
    out = everything(o)
    return {k: v for k, v in out.items() if any(k in n for n in known)} if known else out


def everything(o):
    """public attribute names and values, stored or computed by a property"""
    out = {k: v for k, v in getattr(o, "__dict__", {}).items() if not k.startswith("_")}
    for c in type(o).__mro__:
        for k, v in vars(c).items():
            if not k.startswith("_") and isinstance(v, property) and k not in out:
                try:
                    out[k] = getattr(o, k)
                except AttributeError:
                    pass
        for k in getattr(c, "__slots__", ()) or ():
            if isinstance(k, str) and not k.startswith("_") and hasattr(o, k):
                out.setdefault(k, getattr(o, k))
    return out


def is_ours(o):
    return type(o).__module__.split(".")[0] == "openspace"


def freeze(o, seen=None):
    """bit-exact, order-independent, cycle-safe picture of a value as plain data"""
    if isinstance(o, bool) or o is None or isinstance(o, str):
        return o
    if isinstance(o, (int, float)):
        x = float(o)
        return "nan" if x != x else x.hex()
    seen = {} if seen is None else seen
    if isinstance(o, (list, tuple)):
        return ("seq",) + tuple(freeze(x, seen) for x in o)
    if isinstance(o, (dict, set, frozenset)):
        return ("opaque", type(o).__name__)
    if is_ours(o) and not isinstance(o, type):
        if id(o) in seen:
            return ("ref", seen[id(o)][0])
        seen[id(o)] = len(seen), o  # kept alive: an attribute may be computed on demand
        return (type(o).__name__,) + tuple((k, freeze(v, seen)) for k, v in sorted(public(o).items()))
    return ("other", type(o).__name__)


def diff(a, b, path=""):
    """first difference of two frozen pictures, for messages"""
    if type(a) is not type(b) or not isinstance(a, tuple) or len(a) != len(b):
        return "" if a == b else "%s: %s -> %s" % (path or "value", show(a), show(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], str) and isinstance(y, tuple) and len(y) == 2 and x[0] == y[0]:
                return diff(x[1], y[1], path + "." + x[0])
            return diff(x, y, path + "[%d]" % i if a and a[0] == "seq" else path)
    return ""


def show(x):
    if isinstance(x, str):
        try:
            return repr(float.fromhex(x))
        except ValueError:
            return x
    return str(x)[:120]
