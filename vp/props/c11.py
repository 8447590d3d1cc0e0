"""C11 force model"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.functions import LegendrePolynomial
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("states 6400-500000 km from the Earth in every direction (polar axis, equator, towards Sun/Moon, near the Moon), epochs 1900-2100, "
        "SRP coefficients 0..1e3, thrust on/off, perturbations on/off; non-trivial when the state is new")
ASSUMPTIONS = ["geopotential compared to 2e-7 of its own size (the package's first-order nutation is orthogonal only to 2e-8)"]
vec = core.vec


def run(mon, rng, tier, worker, workers):
    mon.need("point-mass", "geopotential", "sun", "moon", "srp", "thrust", "derivative", "perturbations-off", "legendre", "gradient", "spacecraft-coefficient")
    coefficients(mon)
    N = (160000 if tier == "quick" else 500000) // workers
    for _ in range(N):
        mon.run_case(state, mon, rng)
    for _ in range(N):
        mon.run_case(legendre, mon, rng)
    for _ in range(N // 20):
        mon.run_case(gradient, mon, rng)
        mon.run_case(coefficient, mon, rng)


def place(rng, t):
    k = rng.randrange(10)
    if k < 4:
        return ref.scale(gen.direction(rng), gen.logu(rng, 6400, 60000))
    if k < 6:
        return ref.elements_to_rv(*gen.orbit(rng))[0]
    if k == 6:
        return ref.scale(gen.direction(rng), gen.logu(rng, 60000, 500000))
    if k == 7:
        s = ref.unit(rng.choice([ref.sun(t), ref.moon(t)]))
        return ref.scale(s, rng.choice([-1, 1]) * gen.logu(rng, 6600, 60000))
    if k == 8:
        m = ref.moon(t)
        return ref.add(m, ref.scale(gen.direction(rng), gen.logu(rng, 1800, 50000)))
    # close to the true pole or equator of date
    f = rng.choice([(gen.logu(rng, 1e-3, 10), gen.logu(rng, 1e-3, 10), rng.choice([-1, 1]) * gen.logu(rng, 6600, 50000)),
                    (rng.uniform(-1, 1) * 7000, 7000.0, rng.choice([0.0, gen.logu(rng, 1e-9, 1.0)]))])
    return ref.itrf_to_gcrf(f, t)


def state(mon, rng):
    t = gen.epoch(rng)
    p = place(rng, t)
    v = ref.scale(gen.direction(rng), gen.logu(rng, 1e-3, 12))
    srp = rng.choice([0, 0.0, 0.02, gen.logu(rng, 1e-4, 1e3)])
    th = rng.choice([(0.0, 0.0, 0.0), ref.scale(gen.direction(rng), gen.logu(rng, 1e-9, 1e-2)), ref.scale(gen.direction(rng), gen.logu(rng, 1e-2, 10.0))])
    pert = rng.random() < 0.75
    mon.case("state", t, p, v, srp, th, pert)
    s = mon.call("GCRF", GCRF, Epoch(t), Vector3D(*p), Vector3D(*v))
    s.srp_scalar = srp
    s.thrust = Vector3D(*th)
    if not pert:
        s.use_perturbations = False
    parts = {}
    a = vec(mon.call("earth", s.acceleration_from_earth))
    w = ref.acc_point(p)
    mon.vnear("point-mass", a, w, 1e-14 * ref.norm(w))
    parts["earth"] = w
    w = ref.acc_geopotential(p, t)
    lon_amp = 1.0
    f = ref.gcrf_to_itrf(p, t)
    rho = math.hypot(f[0], f[1])
    # longitude terms divide by the distance from the axis: rounding grows as r/rho
    lon_amp += 1e-8 * ref.norm(p) / max(rho, 1e-9)
    gtol = 2e-7 * ref.norm(w) * lon_amp + 1e-11 * ref.MU / ref.norm(p) ** 2 * (ref.RE / ref.norm(p)) ** 2
    mon.vnear("geopotential", mon.call("gravity", s.acceleration_from_gravity), w, gtol)
    parts["geo"] = w
    su, mo = ref.sun(t), ref.moon(t)
    w = ref.third_body(p, su, ref.MU_SUN)
    d = ref.norm(ref.sub(su, p))
    stol = 2e-9 * ref.norm(w) + 1e-15 * ref.MU_SUN / d ** 2
    mon.vnear("sun", mon.call("sun", s.acceleration_from_sun), w, stol)
    parts["sun"] = w
    w = ref.third_body(p, mo, ref.MU_MOON)
    d = ref.norm(ref.sub(mo, p))
    mtol = 1e-8 * ref.norm(w) + 2e-3 * ref.MU_MOON / d ** 3
    mon.vnear("moon", mon.call("moon", s.acceleration_from_moon), w, mtol)
    parts["moon"] = w
    w = ref.acc_srp(p, t, srp)
    mon.vnear("srp", mon.call("srp", s.acceleration_from_srp), w, 1e-9 * ref.norm(w) + 1e-300)
    parts["srp"] = w
    got = mon.call("thrust", s.acceleration_from_thrust)
    mon.equal("thrust", vec(got), th)
    dv = mon.call("derivative", s.derivative)
    mon.equal("derivative", vec(dv[0]), v)
    total = ref.add(parts["earth"], th)
    tol = 4e-15 * (ref.norm(parts["earth"]) + ref.norm(th))
    if pert:
        for k in ("geo", "sun", "moon", "srp"):
            total = ref.add(total, parts[k])
        tol += gtol + stol + mtol + 1e-9 * ref.norm(parts["srp"])
        mon.vnear("derivative", dv[1], total, tol)
    else:
        mon.vnear("perturbations-off", dv[1], total, tol)
    mon.check("derivative", vec(s.position) == p and vec(s.velocity) == v and s.epoch.value == t and s.srp_scalar == srp and vec(s.thrust) == th
              and s.use_perturbations is pert, "state changed by evaluating its forces")


def coefficients(mon):
    """the tabulated coefficients are the unnormalised EGM values to all their digits"""
    from openspace.bodies.celestial import Earth
    mon.case("coefficients")
    c, s = getattr(Earth, "C", None), getattr(Earth, "S", None)
    if c is None or s is None:
        return
    for (n, m), (want_c, want_s) in ref.CS.items():
        mon.near("geopotential", c[n][m], want_c, 1e-13 * abs(want_c))
        mon.near("geopotential", s[n][m], want_s, 1e-13 * abs(want_s))


def legendre(mon, rng):
    phi = rng.choice([rng.uniform(-math.pi / 2, math.pi / 2), gen.angle(rng, 0, math.pi / 2), -gen.angle(rng, 0, math.pi / 2)])
    mon.case("legendre", phi)
    p = mon.call("legendre", LegendrePolynomial, phi).p
    for n in range(5):
        for m in range(n + 1):
            mon.near("legendre", p[n][m], ref.legendre(n, m, phi), 1e-13 * (105 if m > 1 else 20))
        if len(p[n]) > n + 1:
            mon.equal("legendre", p[n][n + 1], 0)


def gradient(mon, rng):
    """the Earth acceleration is curl-free and matches differences of the potential along the local direction"""
    t = gen.epoch(rng)
    p = ref.scale(gen.direction(rng), gen.logu(rng, 6600, 20000))
    mon.case("gradient", t, p)
    d = gen.direction(rng)
    h = 2.0

    def U(x):
        f = ref.gcrf_to_itrf(x, t)
        r = ref.norm(f)
        lat = math.asin(f[2] / r)
        lon = math.atan2(f[1], f[0])
        u = 0.0
        for (n, m), (C, S) in ref.CS.items():
            u += (ref.RE / r) ** n * ref.legendre(n, m, lat) * (C * math.cos(m * lon) + S * math.sin(m * lon))
        return ref.MU / r * u

    num = (8 * (U(ref.add(p, ref.scale(d, h))) - U(ref.sub(p, ref.scale(d, h)))) - (U(ref.add(p, ref.scale(d, 2 * h))) - U(ref.sub(p, ref.scale(d, 2 * h))))) / (12 * h)
    a = vec(mon.call("gravity", GCRF(Epoch(t), Vector3D(*p), Vector3D(1, 2, 3)).acceleration_from_gravity))
    mon.near("gradient", ref.dot(a, d), num, 2e-6 * ref.norm(a) + 1e-15)


def coefficient(mon, rng):
    """a spacecraft's radiation coefficient follows its current size, albedo and mass, in m^2/kg"""
    r, v = gen.rv(rng)
    cfg = [gen.logu(rng, 1e-4, 1), rng.choice([rng.uniform(0, 1), rng.uniform(0, 1), 0.0, 1.0]), gen.logu(rng, 1, 5e5), rng.choice([0.0, gen.logu(rng, 0.1, 5e5)])]
    mon.case("coefficient", r, v, cfg)
    s = mon.call("Spacecraft", Spacecraft, GCRF(Epoch(gen.epoch(rng)), Vector3D(*r), Vector3D(*v)))
    want = 1.3 * math.pi * 5.0 ** 2 / 800.0
    mon.near("spacecraft-coefficient", mon.call("srp_scalar", s.srp_scalar), want, 1e-12 * want)
    mon.near("spacecraft-coefficient", s.initial_state.srp_scalar, want, 1e-12 * want)
    s.body_radius, s.albedo, s.dry_mass, s.propellant_mass = cfg
    want = (1 + cfg[1]) * math.pi * (1000 * cfg[0]) ** 2 / (cfg[2] + cfg[3])
    mon.near("spacecraft-coefficient", mon.call("srp_scalar", s.srp_scalar), want, 1e-12 * want)
    mon.near("spacecraft-coefficient", mon.call("area", s.area), math.pi * cfg[0] ** 2, 1e-12 * cfg[0] ** 2)
