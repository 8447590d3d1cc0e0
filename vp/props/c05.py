"""C05 conic-section and unit formulas"""
import math
from fractions import Fraction

from openspace.math import functions as fn
from openspace.math.functions import Conversions, EquationsOfMotion as Q, sign
from openspace.math.linalg import Vector3D

from .. import core, gen, ref

RULE = ("ellipses with a in 1e2..1e9 km, e in [0, 0.999] (0, tiny and high strata), any point on them, central bodies from "
        "small moons to the Sun; every helper evaluated on the same ellipse; non-trivial when (mu, a, e, nu) is new")
vec = core.vec


def run(mon, rng, tier, worker, workers):
    mon.need("ellipse", "eccentricity", "circular", "speed", "energy", "period", "areal-velocity", "units", "sign")
    constants(mon)
    N = (600000 if tier == "quick" else 3000000) // workers
    for _ in range(N):
        mon.run_case(ellipse, mon, rng)
    for _ in range(N // 4):
        mon.run_case(circular, mon, rng)
        mon.run_case(units, mon, rng)


def constants(mon):
    from openspace.math import constants as c
    mon.case("constants")
    for name, want in (("SECONDS_IN_DAY", 86400), ("HOURS_IN_DAY", 24), ("MINUTES_IN_DAY", 1440), ("MINUTES_IN_HOUR", 60), ("SECONDS_IN_HOUR", 3600), ("SECONDS_IN_MINUTE", 60),
                       ("DEGREES_IN_HOUR", 15), ("BASE_IN_KILO", 1000)):
        if hasattr(c, name):
            mon.near("units", getattr(c, name), want, 0)


def rel(mon, kind, got, want, k=1.0):
    mon.near(kind, got, want, 4e-14 * k * abs(want) + 1e-300)


def ellipse(mon, rng):
    mu = rng.choice([398600.4418, 1.327124400419e11, 4902.800305555, 1.0, 42828.37, gen.logu(rng, 1e-3, 1e12)])
    a = rng.choice([gen.logu(rng, 1e2, 1e9), gen.logu(rng, 1e2, 1e9), gen.logu(rng, 6600, 50000), gen.logu(rng, 1e-6, 1e3), 1.0])
    e = gen.ecc(rng, 0.999)
    nu = gen.angle(rng) - rng.choice([0, 0, math.pi, 2 * math.pi])
    mon.case("ellipse", mu, a, e, nu)
    ome2 = (1 - e) * (1 + e)
    b = a * math.sqrt(ome2)
    p = a * ome2
    r = p / (1 + e * math.cos(nu))
    n = math.sqrt(mu / a) / a
    tau = 2 * math.pi / n
    h = math.sqrt(mu * p)
    vr, vt = mu / h * e * math.sin(nu), h / r
    v = math.hypot(vr, vt)
    fpa = math.atan2(vr, vt)
    xi = -mu / (2 * a)
    rel(mon, "ellipse", mon.call("B", Q.B.from_a_e, a, e), b, 1 / ome2)
    rel(mon, "ellipse", mon.call("P", Q.P.from_a_e, a, e), p, 1 / ome2)
    rel(mon, "ellipse", mon.call("P", Q.P.from_a_b, a, b), p)
    rel(mon, "ellipse", mon.call("P", Q.P.from_mu_h, mu, h), p)
    rel(mon, "ellipse", mon.call("Radius", fn.Radius.from_p_e_nu, p, e, nu), r, 1 + 2 / (1 + e * math.cos(nu)))
    mon.near("ellipse", mon.call("F", Q.F.from_a_b, a, b), (a - b) / a, 1e-15 * 4)
    c = a * e
    mon.near("eccentricity", mon.call("E", Q.E.from_a_c, a, c), e, 1e-15)
    et = min(2e-7, 2e-15 / e if e else 1) + 1e-15
    mon.near("eccentricity", mon.call("E", Q.E.from_a_b, a, b), e, et)
    mon.near("eccentricity", mon.call("E", Q.E.from_a_p, a, p), e, et)
    amp = 1 + 1 / (1 + e * math.cos(nu))
    k = a / r * (1 + 1 / (1 + e * math.cos(nu)))
    rel(mon, "ellipse", mon.call("A", Q.A.from_mu_n, mu, n), a)
    rel(mon, "ellipse", mon.call("A", Q.A.from_mu_tau, mu, tau), a)
    rel(mon, "ellipse", mon.call("A", Q.A.from_mu_r_v, mu, r, v), a, 1 + k)
    sp = amp * (1 + 1 / max(2 - r / a, 1e-6))
    rel(mon, "speed", mon.call("V", Q.V.from_a_mu_r, a, mu, r), v, sp)
    rel(mon, "speed", mon.call("V", Q.V.from_mu_r_xi, mu, r, xi), v, sp)
    rel(mon, "speed", mon.call("V", Q.V.from_mu_r_e_nu, mu, r, e, nu), v, sp)
    mon.near("energy", mon.call("XI", Q.XI.from_mu_r_v, mu, r, v), xi, 2e-14 * (mu / r + v * v) * (1 + 1 / (1 + e * math.cos(nu))))
    rel(mon, "energy", mon.call("XI", Q.XI.from_mu_a, mu, a), xi)
    rel(mon, "period", mon.call("TAU", Q.TAU.from_a_mu, a, mu), tau)
    rel(mon, "period", mon.call("N", Q.N.from_a_mu, a, mu), n)
    rel(mon, "period", mon.call("N", Q.N.from_tau, tau), n)
    rel(mon, "areal-velocity", mon.call("H", Q.H.from_mu_p, mu, p), h)
    rel(mon, "areal-velocity", mon.call("H", Q.H.from_r_v_phi, r, v, fpa), h, 1 + abs(math.tan(fpa)))
    d = gen.direction(rng)
    e1, e2 = ref.perp(d)
    rv_, vv = ref.scale(e1, r), ref.add(ref.scale(e1, vr), ref.scale(e2, vt))
    H = mon.call("H", Q.H.from_r_v, Vector3D(*rv_), Vector3D(*vv))
    mon.vnear("areal-velocity", H, ref.scale(d, h), 1e-14 * r * v)


def circular(mon, rng):
    """eccentricity of circular orbits whose semi-parameter rounds to, or above, the semi-major axis"""
    a = gen.logu(rng, rng.choice([1e-6, 1e2]), 1e9)
    p = a
    for _ in range(rng.choice([0, 0, 1, 2, 3, 10])):
        p = math.nextafter(p, math.inf)
    if rng.random() < 0.2:
        p = a * (1 + gen.logu(rng, 1e-16, 1e-10))
    mu = rng.choice([398600.4418, 1.0, gen.logu(rng, 1, 1e12)])
    mon.case("circular", a, p, mu)
    # one rounding inside 1 - p / a is worth sqrt(2.2e-16) in e: however the ratio is formed, no more than that
    mon.near("circular", mon.call("E", Q.E.from_a_p, a, p), 0, 3e-8)
    mon.near("circular", mon.call("E", Q.E.from_a_b, a, a), 0, 3e-8)
    mon.near("circular", mon.call("E", Q.E.from_a_c, a, 0), 0, 1e-15)
    mon.near("circular", mon.call("F", Q.F.from_a_b, a, a), 0, 1e-15)
    mon.near("circular", mon.call("B", Q.B.from_a_e, a, 0), a, 1e-15 * a)
    mon.near("circular", mon.call("P", Q.P.from_a_e, a, 0), a, 1e-15 * a)
    # full chain from a circular state, as the element conversion does it
    v = math.sqrt(mu / a)
    d = gen.direction(rng)
    e1, e2 = ref.perp(d)
    h = mon.call("H", Q.H.from_r_v, Vector3D(*ref.scale(e1, a)), Vector3D(*ref.scale(e2, v)))
    aa = mon.call("A", Q.A.from_mu_r_v, mu, a, v)
    pp = mon.call("P", Q.P.from_mu_h, mu, ref.norm(vec(h)))
    mon.near("circular", mon.call("E", Q.E.from_a_p, aa, pp), 0.0, 2e-7)


def units(mon, rng):
    s = rng.choice([0.0, rng.uniform(0, 60), 59.9999999, gen.logu(rng, 1e-6, 1e5)])
    h, m = rng.choice([(0, 0), (23, 59), (rng.randint(0, 23), rng.randint(0, 59)), (rng.randint(0, 360), rng.randint(0, 59)), (rng.uniform(0, 24), rng.uniform(0, 60))])
    if rng.random() < 0.25:  # a negative angle or offset, every part carrying the sign
        h, m, s = -h, -m, -s
    mon.case("units", h, m, s)
    want = Fraction(h) / 24 + Fraction(m) / 1440 + Fraction(s) / 86400
    mon.near("units", float(Fraction(mon.call("hms", Conversions.hms_to_decimal_day, h, m, s)) - want), 0.0, 1e-15 * abs(float(want)))
    deg = Fraction(h) + Fraction(m) / 60 + Fraction(s) / 3600
    want = float(deg) * math.pi / 180
    mon.near("units", mon.call("dms", Conversions.dms_to_radians, h, m, s), want, 1.2e-15 * abs(want))
    x = rng.choice([0, 0.0, -0.0, 5e-324, -5e-324, 1, -1, 1e308, -1e308, math.inf, -math.inf, rng.gauss(0, 1), rng.choice([-1, 1]) * gen.logu(rng, 1e-300, 1e300)])
    mon.equal("sign", mon.call("sign", sign, x), (x > 0) - (x < 0))
