"""C16 transfer planning"""
import math
from fractions import Fraction

from openspace.planning.maneuvers import Hohmann, VisViva

from .. import gen, ref

RULE = ("radius pairs 6400..640000 km, climbing, descending, equal and nearly equal, ratios up to 1e4; radii between the apsides of ellipses up to e = 1 - 1e-6; "
        "non-trivial when the pair is new")
ASSUMPTIONS = []


def run(mon, rng, tier, worker, workers):
    mon.need("circular", "elliptic", "transfer-apsis", "burns", "signs", "equal-radii", "transfer-flight")
    N = (600000 if tier == "quick" else 3000000) // workers
    for _ in range(N):
        mon.run_case(pair, mon, rng)
        mon.run_case(visviva, mon, rng)
    for _ in range(N // 40):
        mon.run_case(fly, mon, rng)


def radii(rng):
    r1 = gen.logu(rng, 6400, 640000)
    k = rng.randrange(6)
    if k == 0:
        return r1, r1
    if k == 1:
        return r1, r1 * (1 + rng.choice([-1, 1]) * gen.logu(rng, 1e-12, 1e-2))
    r2 = r1 * gen.logu(rng, *rng.choice([(0.01, 100), (0.01, 100), (1e-4, 1e4)]))
    if k == 2:
        return 6678.0, 42164.17
    return r1, r2


def pair(mon, rng):
    r1, r2 = radii(rng)
    mon.case("pair", r1, r2)
    h = mon.call("Hohmann", Hohmann, r1, r2)
    mu = ref.MU
    v1, v2 = math.sqrt(mu / r1), math.sqrt(mu / r2)
    # transfer speeds from angular momentum of an ellipse with apsides r1 and r2
    ang = math.sqrt(2 * mu * r1 * r2 / (r1 + r2))
    t1, t2 = ang / r1, ang / r2
    e = 1e-13
    mon.near("circular", h.initial_velocity, v1, e * v1)
    mon.near("circular", h.final_velocity, v2, e * v2)
    # conditioning: the slow apsis subtracts nearly equal numbers
    k = 1 + max(r1 / r2, r2 / r1)
    mon.near("transfer-apsis", h.transfer_velocity_1, t1, e * t1 * k)
    mon.near("transfer-apsis", h.transfer_velocity_2, t2, e * t2 * k)
    # the burnt-to orbit really has its other apsis at the final radius
    a = 1 / (2 / r1 - h.transfer_velocity_1 ** 2 / mu)
    mon.near("transfer-apsis", 2 * a - r1, r2, 1e-12 * (r1 + r2) * k * (1 + r2 / r1))
    mon.near("burns", h.delta_v_1, h.transfer_velocity_1 - h.initial_velocity, e * v1)
    mon.near("burns", h.delta_v_2, h.final_velocity - h.transfer_velocity_2, e * v2)
    if r1 == r2:
        mon.near("equal-radii", h.delta_v_1, 0.0, 1e-14 * v1)
        mon.near("equal-radii", h.delta_v_2, 0.0, 1e-14 * v2)
    elif abs(r2 / r1 - 1) > 1e-9:
        s = 1 if r2 > r1 else -1
        mon.check("signs", h.delta_v_1 * s > 0 and h.delta_v_2 * s > 0, "burn signs %r %r for %r -> %r" % (h.delta_v_1, h.delta_v_2, r1, r2))


def visviva(mon, rng):
    a = gen.logu(rng, 3000, 1e6)
    e = gen.ecc(rng, 0.99) if rng.random() < 0.8 else 1 - gen.logu(rng, 1e-6, 1e-2)
    nu = gen.angle(rng)
    r = a * (1 - e * e) / (1 + e * math.cos(nu))
    mon.case("visviva", a, e, nu)
    p = a * (1 - e * e)
    v = math.sqrt(ref.MU / p) * math.hypot(math.sin(nu), e + math.cos(nu))
    if r >= 2 * a:
        return
    got = mon.call("eccentric_velocity", VisViva.eccentric_velocity, r, a)
    if e <= 0.99:
        k = 1 + 2 * a / (2 * a - r)
        mon.near("elliptic", got, v, 1e-14 * v * k + 1e-14 * v / (1 - e))
    # the law itself, evaluated exactly on these very numbers
    R, A = Fraction(r), Fraction(a)
    v2 = float(Fraction(ref.MU) * (2 / R - 1 / A))
    mon.near("elliptic", got * got, v2, 4e-15 * ref.MU * (2 / r + 1 / a))
    c = mon.call("circular_velocity", VisViva.circular_velocity, r)
    mon.near("circular", c, math.sqrt(ref.MU / r), 1e-14 * c)
    mon.near("circular", c * c * r, ref.MU, 1e-13 * ref.MU)
    mon.near("circular", mon.call("eccentric_velocity", VisViva.eccentric_velocity, r, r), c, 1e-14 * c)


def fly(mon, rng):
    """fly the plan: after half the transfer period the vehicle is at the final radius, moving tangentially, and the second burn circularises"""
    r1, r2 = radii(rng)
    mon.case("fly", r1, r2)
    h = mon.call("Hohmann", Hohmann, r1, r2)
    v = h.initial_velocity + h.delta_v_1
    a = (r1 + r2) / 2
    T = math.pi * math.sqrt(a ** 3 / ref.MU)
    p, q = ref.kepler_propagate((r1, 0.0, 0.0), (0.0, v, 0.0), T)
    k = max(r1 / r2, r2 / r1)
    mon.vnear("transfer-flight", p, (-r2, 0.0, 0.0), 1e-9 * (r1 + r2) * k)
    mon.vnear("transfer-flight", q, (0.0, -h.transfer_velocity_2, 0.0), 1e-9 * (v + h.transfer_velocity_2) * k)
    vf = h.transfer_velocity_2 + h.delta_v_2
    mon.near("transfer-flight", vf * vf / r2, ref.MU / r2 ** 2, 1e-12 * ref.MU / r2 ** 2)
