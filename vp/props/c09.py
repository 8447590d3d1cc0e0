"""C09 inertial and Earth-fixed frames"""
import math

from openspace.bodies.celestial import Earth
from openspace.coordinates.positions import PositionConvert
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("epochs 1900-2100 (boundaries of days, UTC days and J2000 included) x positions of every orientation, 1e-3..1e6 km; "
        "non-trivial when the (epoch, position) pair is new")
vec, mat = core.vec, core.mat
G, I = PositionConvert.gcrf, PositionConvert.itrf


def run(mon, rng, tier, worker, workers):
    mon.need("precession", "nutation", "rotation", "obliquity", "gcrf-chain", "itrf-chain", "round-trip", "lengths-and-angles", "equatorial-frame", "geo-radius")
    N = (80000 if tier == "quick" else 600000) // workers
    for _ in range(N):
        mon.run_case(matrices, mon, rng)
        mon.run_case(chain, mon, rng)
    # a slow scan of the whole span so that every year is visited
    for k in range(N):
        t = 15020.0 + (88069.0 - 15020.0) * (k * workers + worker + rng.random()) / (N * workers)
        mon.run_case(chain, mon, rng, t)
    mon.case("geo")
    mon.near("geo-radius", mon.call("geo_radius", Earth.geo_radius), (ref.MU * (ref.SIDEREAL_DAY / 2 / math.pi) ** 2) ** (1 / 3), 1e-9)


def matrices(mon, rng):
    t = gen.epoch(rng)
    mon.case("matrices", t)
    E = Epoch(t)
    for kind, f, g, tol in (("precession", Earth.precession, ref.precession, 1e-13), ("nutation", Earth.nutation, ref.nutation, 1e-13),
                            ("rotation", Earth.rotation, ref.earth_rotation, 1e-10)):
        a, b = mat(mon.call(kind, f, E)), g(t)
        for r, s in zip(a, b):
            mon.vnear(kind, r, s, tol)
    mon.near("obliquity", mon.call("obliquity", Earth.obliquity_of_ecliptic_at_epoch, E), ref.obliquity(t), 1e-14)
    mon.check("obliquity", E.value == t, "epoch changed")


def chain(mon, rng, t=None):
    t = gen.epoch(rng) if t is None else t
    p = ref.scale(gen.direction(rng), rng.choice([7000.0, 42164.0, 1.0, gen.logu(rng, 1e-3, 1e6)]))
    q = ref.scale(gen.direction(rng), rng.choice([7000.0, gen.logu(rng, 1e-3, 1e6)]))
    mon.case("chain", t, p)
    n, m = ref.norm(p), ref.norm(q)
    P, E = Vector3D(*p), Epoch(t)
    tol = 4e-10 * n
    P1, N1, R1 = ref.precession(t), ref.nutation(t), ref.earth_rotation(t)
    mod = ref.mv(P1, p)
    tod = ref.mv(N1, mod)
    fix = ref.mv(R1, tod)
    mon.vnear("gcrf-chain", mon.call("to_mod", G.to_mod, P, E), mod, 1e-13 * n)
    mon.vnear("gcrf-chain", mon.call("to_tod", G.to_tod, P, E), tod, 1e-13 * n)
    f = mon.call("to_itrf", G.to_itrf, P, E)
    mon.vnear("gcrf-chain", f, fix, tol)
    # going back from the fixed frame, each stage
    b1 = ref.mv(ref.tr(R1), p)
    b2 = ref.mv(ref.tr(N1), b1)
    b3 = ref.mv(ref.tr(P1), b2)
    mon.vnear("itrf-chain", mon.call("to_tod", I.to_tod, P, E), b1, tol)
    mon.vnear("itrf-chain", mon.call("to_mod", I.to_mod, P, E), b2, tol)
    mon.vnear("itrf-chain", mon.call("to_gcrf", I.to_gcrf, P, E), b3, tol)
    # there and back, both ways
    mon.vnear("round-trip", mon.call("to_gcrf", I.to_gcrf, f, E), p, 2e-8 * n)
    g = mon.call("to_gcrf", I.to_gcrf, P, E)
    mon.vnear("round-trip", mon.call("to_itrf", G.to_itrf, g, E), p, 2e-8 * n)
    mon.near("lengths-and-angles", ref.norm(vec(f)), n, 2e-8 * n)
    h = mon.call("to_itrf", G.to_itrf, Vector3D(*q), E)
    mon.near("lengths-and-angles", ref.dot(vec(f), vec(h)), ref.dot(p, q), 4e-8 * n * m)
    mon.near("lengths-and-angles", ref.dot(vec(f), ref.cross(vec(h), ref.cross(vec(f), vec(h)))),
             ref.dot(p, ref.cross(q, ref.cross(p, q))), 2e-7 * n * n * m * m)
    # quasi-inertial equatorial frame
    gha = Epoch(t).greenwich_hour_angle()
    k = mon.call("to_ijk", I.to_ijk, P, E)
    mon.vnear("equatorial-frame", k, ref.rodrigues(p, (0, 0, 1), gha), 1e-13 * n)
    mon.vnear("equatorial-frame", k, ref.itrf_to_ijk(p, t), tol)
    mon.vnear("equatorial-frame", mon.call("to_ijk", G.to_ijk, P, E), ref.itrf_to_ijk(fix, t), 2 * tol)
    mon.check("round-trip", vec(P) == p and E.value == t, "operand changed")
