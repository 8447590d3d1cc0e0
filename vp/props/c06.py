"""C06 Kepler's equation and orbital angles"""
import math

from openspace.math.functions import EquationsOfMotion as Q
from openspace.math.linalg import Vector3D

from .. import gen, ref

RULE = ("(mean anomaly, eccentricity) on a dense grid and at random incl. every quadrant boundary, both signs and several turns, "
        "e from 0 to 0.99; orbit planes of every inclination and node incl. exactly equatorial and polar; non-trivial when new")
TWO_PI = 2 * math.pi
PI = math.pi


def run(mon, rng, tier, worker, workers):
    mon.need("kepler-equation", "anomaly-range", "true-anomaly", "round-trip", "node", "inclination", "argument-of-latitude",
             "argument-of-perigee", "eccentric-from-state")
    ne, nm = (60, 400) if tier == "quick" else (400, 2000)
    for i in range(worker, ne + 1, workers):
        e = 0.99 * i / ne
        for j in range(nm + 1):
            mon.run_case(kepler, mon, -TWO_PI + 2 * TWO_PI * j / nm, e)
    N = (400000 if tier == "quick" else 2000000) // workers
    for _ in range(N):
        e = rng.choice([gen.ecc(rng, 0.99), rng.uniform(0, 0.99), 0.99])
        M = rng.choice([gen.angle(rng), -gen.angle(rng), rng.uniform(-TWO_PI, TWO_PI)])
        mon.run_case(kepler, mon, M, e)
        if rng.random() < 0.3:
            mon.run_case(kepler, mon, M + TWO_PI * rng.choice([-1, 1, -2, 2, rng.randint(-20, 20), rng.randint(-1000, 1000)]), e)
        mon.run_case(conversions, mon, gen.angle(rng), e)
    for _ in range(N // 3):
        mon.run_case(plane, mon, rng)


def in_turn(mon, kind, x):
    mon.check(kind, 0 <= x <= TWO_PI + 1e-12, "%r outside [0, 2 pi]" % x)


def kepler(mon, M, e):
    mon.case("kepler", M, e)
    E = mon.call("EA.from_ma_e", Q.EA.from_ma_e, M, e)
    # residual of Kepler's equation and distance to the reference root, modulo a turn
    mon.angle_near("kepler-equation", E - e * math.sin(E), M, 3e-12 + 4e-15 * abs(M))
    mon.angle_near("kepler-equation", E, ref.kepler_E(M, e), (3e-12 + 4e-15 * abs(M)) / (1 - e * math.cos(E)) + 1e-13)
    in_turn(mon, "anomaly-range", E)


def conversions(mon, E, e):
    mon.case("anomalies", E, e)
    nu = mon.call("NU.from_e_ea", Q.NU.from_e_ea, e, E)
    in_turn(mon, "anomaly-range", nu)
    s = math.sqrt((1 - e) * (1 + e))
    # half-angle form, an independent expression of the same relation
    want = 2 * math.atan2(math.sqrt(1 + e) * math.sin(E / 2), math.sqrt(1 - e) * math.cos(E / 2))
    amp = s / (1 - e * math.cos(E))
    mon.angle_near("true-anomaly", nu, want, 4e-15 * (2 + 1 / (1 - e)) * (1 + amp))
    M = mon.call("MA.from_ea_e", Q.MA.from_ea_e, E, e)
    in_turn(mon, "anomaly-range", M)
    mon.angle_near("round-trip", M, E - e * math.sin(E), 1e-14)
    back = mon.call("EA.from_ma_e", Q.EA.from_ma_e, M, e)
    mon.angle_near("round-trip", back, E, 4e-12 / (1 - e * math.cos(E)) + 1e-13)
    # NU is inverted by the standard relation
    En = math.atan2(s * math.sin(nu), e + math.cos(nu))
    mon.angle_near("round-trip", En, E, 2e-14 * (2 + 1 / (1 - e)) * (1 + 1 / max(amp, 1e-3)))
    # negative inputs come back in the positive turn
    M2 = mon.call("MA.from_ea_e", Q.MA.from_ea_e, -E, e)
    in_turn(mon, "anomaly-range", M2)
    mon.angle_near("round-trip", M2, -(E - e * math.sin(E)), 1e-14)


def plane(mon, rng):
    i, raan, w = gen.incl(rng), gen.angle(rng), gen.angle(rng)
    nu = gen.angle(rng)
    e = gen.ecc(rng, 0.99)
    a = gen.logu(rng, 6600, 60000)
    mon.case("plane", i, raan, w, nu, e, a)
    q = ref.perifocal(i, raan, w)
    W = q[2]
    if i in (0.0, PI):
        W = (0.0, 0.0, 1.0 if i == 0.0 else -1.0)
    wv = Vector3D(*W)
    gi = mon.call("I.from_w", Q.I.from_w, wv)
    mon.check("inclination", 0 <= gi <= PI, "inclination %r outside [0, pi]" % gi)
    mon.near("inclination", gi, i, 1e-15 * 4)
    go = mon.call("RAAN.from_w", Q.RAAN.from_w, wv)
    in_turn(mon, "node", go)
    si = math.sin(i)
    p = a * (1 - e * e)
    r = p / (1 + e * math.cos(nu))
    rp = ref.scale(ref.add(ref.scale(q[0], math.cos(nu)), ref.scale(q[1], math.sin(nu))), r)
    gu = mon.call("U.from_r_w", Q.U.from_r_w, Vector3D(*rp), wv)
    in_turn(mon, "argument-of-latitude", gu)
    if W[0] == 0 and W[1] == 0:
        # no node: the pair (node, argument of latitude) must still locate the satellite
        x = go + (gu if W[2] > 0 else -gu)
        mon.angle_near("argument-of-latitude", x, math.atan2(rp[1], rp[0]), 1e-14)
    elif si > 1e-9:
        t = 4e-15 / si + 1e-14
        mon.angle_near("node", go, raan, t)
        mon.angle_near("argument-of-latitude", gu, w + nu, 2 * t)
    gw = mon.call("W.from_u_nu", Q.W.from_u_nu, gu, nu % TWO_PI)
    in_turn(mon, "argument-of-perigee", gw)
    mon.angle_near("argument-of-perigee", gw, gu - nu, 1e-14)
    if e > 1e-6:
        # eccentric anomaly from r.v, r, a, n
        E = math.atan2(math.sqrt(1 - e * e) * math.sin(nu), e + math.cos(nu))
        n = math.sqrt(ref.MU / a ** 3)
        rr = a * (1 - e * math.cos(E))
        g = mon.call("EA.from_rdv_r_a_n", Q.EA.from_rdv_r_a_n, a * a * n * e * math.sin(E), rr, a, n)
        in_turn(mon, "eccentric-from-state", g)
        mon.angle_near("eccentric-from-state", g, E, 1e-15 / e * 4 + 1e-14)
