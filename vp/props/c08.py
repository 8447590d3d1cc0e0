"""C08 geodetic, spherical and topocentric conversions"""
import math

from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import ENZ, LLA, PositionConvert, SphericalPosition
from openspace.math.linalg import Vector3D

from .. import core, gen, ref

RULE = ("geodetic points: latitude -90..90 deg (poles, equator and their neighbourhoods), every longitude quadrant incl. negative, "
        "altitude -100 km to 60000 km; Cartesian points incl. exactly on the axes and planes; non-trivial when the point is new")
ASSUMPTIONS = ["latitude recovered by a closed-form inversion is only known to the conditioning of that inversion in double precision "
               "(about 1e-11 rad mid-latitude, 1e-6 rad within 1e-5 rad of pole or equator)"]
vec, mat = core.vec, core.mat
PI, TWO_PI = math.pi, 2 * math.pi


def lat(rng):
    k = rng.randrange(10)
    if k < 5:
        return rng.uniform(-PI / 2, PI / 2)
    s = rng.choice([-1, 1])
    if k == 5:
        return s * PI / 2
    if k == 6:
        return 0.0
    if k == 7:
        return s * (PI / 2 - gen.logu(rng, 1e-12, 1e-1))
    if k == 8:
        return s * gen.logu(rng, 1e-12, 1e-1)
    return s * rng.choice([PI / 4, PI / 6, PI / 3])


def alt(rng):
    return rng.choice([0.0, rng.uniform(-100, 100), rng.uniform(-10, 10), gen.logu(rng, 1e-4, 1e3), rng.uniform(100, 40000), 35786.0,
                       rng.uniform(40000, 60000), -100.0])


def lon(rng):
    return rng.choice([gen.angle(rng), gen.angle(rng), -gen.angle(rng), gen.angle(rng) - PI])


def run(mon, rng, tier, worker, workers):
    mon.need("geodetic-forward", "geodetic-inverse", "geodetic-range", "spherical", "spherical-range", "enz-axes", "enz-round-trip", "ground-site", "cartesian-inverse")
    N = (480000 if tier == "quick" else 1000000) // workers
    for _ in range(N):
        mon.run_case(geodetic, mon, rng)
        mon.run_case(spherical, mon, rng)
    for _ in range(N // 2):
        mon.run_case(cartesian, mon, rng)
        mon.run_case(topocentric, mon, rng)


def check_inverse(mon, kind, p, got, la, h):
    """got (LLA) must be the geodetic coordinates of p, whose latitude and height are la, h"""
    tl = ref.lat_tolerance(p, la)
    mon.check("geodetic-range", -PI / 2 <= got.latitude <= PI / 2 and 0 <= got.longitude <= TWO_PI, "lat %r lon %r out of range" % (got.latitude, got.longitude))
    mon.near(kind, got.latitude, la, tl)
    mon.near(kind, got.altitude, h, 1e-13 * ref.norm(p))
    rho = math.hypot(p[0], p[1])
    if rho > 1e-6:
        mon.angle_near(kind, got.longitude, math.atan2(p[1], p[0]), 1e-14)
    # and the point they denote is the point given
    q = ref.lla_to_itrf(got.latitude, got.longitude, got.altitude)
    mon.vnear(kind, q, p, tl * ref.norm(p) * 4)


def geodetic(mon, rng):
    la, lo, h = lat(rng), lon(rng), alt(rng)
    mon.case("lla", la, lo, h)
    L = LLA(la, lo, h)
    p = mon.call("lla.to_itrf", PositionConvert.lla.to_itrf, L)
    want = ref.lla_to_itrf(la, lo, h)
    mon.vnear("geodetic-forward", p, want, 4e-15 * (RE_ + abs(h)) * 4)
    g = mon.call("itrf.to_lla", PositionConvert.itrf.to_lla, p)
    check_inverse(mon, "geodetic-inverse", vec(p), g, la, h)
    if abs(math.cos(la)) > 1e-9:
        mon.angle_near("geodetic-inverse", g.longitude, lo, 1e-14 / abs(math.cos(la)) + 1e-14)
    mon.check("geodetic-forward", (L.latitude, L.longitude, L.altitude) == (la, lo, h), "operand changed")


RE_ = ref.RE


def cartesian(mon, rng):
    """Earth-fixed points given directly, including exact zeros in each component"""
    r = rng.choice([6378.137, 6356.7523, 7000.0, 42164.0, gen.logu(rng, 6300, 66000)])
    p = ref.scale(gen.direction(rng), r)
    if rng.random() < 0.3:
        z = [0.0 if rng.random() < 0.4 else x for x in p]
        if any(z):
            p = ref.scale(ref.unit(z), r)
    mon.case("itrf", p)
    # reference inverse: Newton on the latitude, from the forward ellipsoid formula only
    rho, z = math.hypot(p[0], p[1]), p[2]
    la = math.atan2(z, rho * (1 - ref.E2))
    for _ in range(60):
        n = ref.RE / math.sqrt(1 - ref.E2 * math.sin(la) ** 2)
        new = math.atan2(z + ref.E2 * n * math.sin(la), rho)
        if abs(new - la) < 1e-16:
            break
        la = new
    n = ref.RE / math.sqrt(1 - ref.E2 * math.sin(la) ** 2)
    h = rho * math.cos(la) + z * math.sin(la) - ref.RE * math.sqrt(1 - ref.E2 * math.sin(la) ** 2)
    if h < -100:
        return
    P = Vector3D(*p)
    g = mon.call("itrf.to_lla", PositionConvert.itrf.to_lla, P)
    check_inverse(mon, "cartesian-inverse", p, g, la, h)
    back = mon.call("lla.to_itrf", PositionConvert.lla.to_itrf, g)
    mon.vnear("cartesian-inverse", back, p, ref.lat_tolerance(p, la) * r * 4)
    mon.check("cartesian-inverse", vec(P) == p, "operand changed")
    _ = n


def spherical(mon, rng):
    if rng.random() < 0.5:
        p = ref.scale(gen.direction(rng), gen.logu(rng, 1e-3, 1e9))
    else:
        p = tuple(rng.choice([0.0, -0.0, rng.uniform(-1e4, 1e4), rng.choice([-1, 1]) * gen.logu(rng, 1e-12, 1e-3)]) for _ in range(3))
        if not any(p):
            p = (0.0, 0.0, -5.0)
    mon.case("spherical", p)
    s = mon.call("from_cartesian", SphericalPosition.from_cartesian, Vector3D(*p))
    n = ref.norm(p)
    mon.near("spherical", s.radius, n, 1e-14 * n)
    mon.check("spherical-range", 0 <= s.right_ascension <= TWO_PI and -PI / 2 <= s.declination <= PI / 2,
              "ra %r dec %r out of range" % (s.right_ascension, s.declination))
    rho = math.hypot(p[0], p[1])
    mon.near("spherical", s.declination, math.atan2(p[2], rho), 1e-14)
    if rho > 0:
        mon.angle_near("spherical", s.right_ascension, math.atan2(p[1], p[0]), 1e-14)
    mon.vnear("spherical", mon.call("to_cartesian", s.to_cartesian), p, 1e-14 * n)
    # angles in, angles out
    ra, dec, r = gen.angle(rng), lat(rng), gen.logu(rng, 1e-3, 1e9)
    c = mon.call("to_cartesian", SphericalPosition(r, ra, dec).to_cartesian)
    mon.vnear("spherical", c, (r * math.cos(dec) * math.cos(ra), r * math.cos(dec) * math.sin(ra), r * math.sin(dec)), 1e-14 * r)
    b = mon.call("from_cartesian", SphericalPosition.from_cartesian, c)
    mon.near("spherical", b.declination, dec, 1e-14)
    mon.near("spherical", b.radius, r, 1e-14 * r)
    if math.cos(dec) > 1e-9:
        mon.angle_near("spherical", b.right_ascension, ra, 1e-14 + 1e-14 / math.cos(dec))


def topocentric(mon, rng):
    la, lo, h = lat(rng), lon(rng), rng.choice([0.0, rng.uniform(-5, 9), rng.uniform(0, 40000)])
    q = ref.scale(gen.direction(rng), gen.logu(rng, 1e-3, 1e5))
    mon.case("topocentric", la, lo, h, q)
    m = mat(mon.call("ENZ.matrix", ENZ.matrix, lo, la))
    want = ref.enz_axes(la, lo)
    for i in range(3):
        mon.vnear("enz-axes", m[i], want[i], 1e-14)
        for j in range(3):
            mon.near("enz-axes", ref.dot(m[i], m[j]), float(i == j), 1e-14)
    L = LLA(la, lo, h)
    enz = Vector3D(*q)
    d = mon.call("enz.to_itrf", PositionConvert.enz.to_itrf, L, enz)
    mon.vnear("enz-round-trip", ref.mv(want, vec(d)), q, 1e-14 * ref.norm(q))
    g = mon.call("GroundSite", GroundSite, L)
    site = ref.lla_to_itrf(la, lo, h)
    mon.vnear("ground-site", g.itrf_position, site, 2e-11 + 1e-15 * h)
    mon.near("ground-site", g.latitude, la, 1e-12)
    mon.angle_near("ground-site", g.longitude, lo, 1e-12)
    tgt = ref.add(site, vec(d))
    back = mon.call("enz_position", g.enz_position, Vector3D(*tgt))
    mon.vnear("enz-round-trip", back, q, 1e-14 * (ref.norm(q) + ref.norm(site)) * 4)
    zen = mon.call("enz_position", g.enz_position, Vector3D(*ref.lla_to_itrf(la, lo, h + 100)))
    mon.vnear("ground-site", zen, (0.0, 0.0, 100.0), 1e-10 + 1e-14 * h)
    # a site built from Cartesian coordinates is the same site
    g2 = mon.call("from_itrf_position", GroundSite.from_itrf_position, Vector3D(*site))
    tl = ref.lat_tolerance(site, la)
    mon.vnear("ground-site", g2.itrf_position, site, 4 * tl * ref.norm(site))
    b2 = mon.call("enz_position", g2.enz_position, Vector3D(*tgt))
    if math.cos(la) > 1e-5:
        mon.vnear("ground-site", b2, q, (tl * 4 + 1e-13 / math.cos(la)) * (ref.norm(q) + ref.norm(site)))
        mon.near("ground-site", g2.latitude, la, tl)
        mon.angle_near("ground-site", g2.longitude, lo, 1e-12 / math.cos(la))
    mon.check("ground-site", vec(enz) == q and (L.latitude, L.longitude, L.altitude) == (la, lo, h), "operand changed")
