"""C18 observations"""
import math
import random

from openspace.bodies.artificial import Spacecraft
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import LLA
from openspace.coordinates.states import GCRF, ITRF
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.hardware.payloads import Camera
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref
from . import c08

RULE = ("ground looks from sites at all latitudes/longitudes (poles and equator included) at targets overhead, on every horizon point, below the horizon, 1..60000 km away, "
        "epochs 1900-2100, of new spacecraft and of ones that have been propagated and maneuvered; space looks in every direction; simulated camera looks with default and custom cameras, sizes and pointing accuracies, 200 noise draws each; "
        "non-trivial when site, target and epoch are new")
ASSUMPTIONS = ["inertial position returned to 2e-8 of its size (first-order nutation) plus the latitude conditioning of C08 times the range"]
vec = core.vec
PI, TWO_PI = math.pi, 2 * math.pi


def run(mon, rng, tier, worker, workers):
    mon.need("ground-look", "ground-look-moved", "ground-look-again", "camera-moved", "ground-range", "ground-inverse", "ground-angles", "space-look", "space-position", "camera-errors", "camera-observer", "noise-range", "noise-angle", "operands")
    N = (80000 if tier == "quick" else 400000) // workers
    for _ in range(N):
        mon.run_case(ground, mon, rng)
        mon.run_case(angles, mon, rng)
        mon.run_case(space, mon, rng)
    for _ in range(N // 100):
        mon.run_case(camera, mon, rng)


def azel(rng):
    az = gen.angle(rng)
    el = rng.choice([rng.uniform(-PI / 2, PI / 2), 0.0, PI / 2, -PI / 2, PI / 2 - gen.logu(rng, 1e-9, 1e-2), rng.uniform(0, PI / 2)])
    return az, el


def site(rng):
    return c08.lat(rng), c08.lon(rng), rng.choice([0.0, rng.uniform(-0.4, 8.8), rng.uniform(-0.4, 8.8), rng.uniform(-100, 100), rng.choice([1, -0.1]) * gen.logu(rng, 1e-6, 1000)])


def spherical(enz):
    e, n, z = enz
    return ref.norm(enz), math.atan2(e, n), math.atan2(z, math.hypot(e, n))


def check_angles(mon, kind, ob, enz, tol_len):
    """range, azimuth clockwise from north, elevation of an ENZ vector known to tol_len"""
    r, az, el = spherical(enz)
    mon.near(kind, ob.range, r, tol_len + 1e-14 * r)
    mon.near(kind, ob.elevation, el, 1e-14 + 2 * tol_len / r)
    mon.check("ground-range", 0 <= ob.azimuth <= TWO_PI and -PI / 2 <= ob.elevation <= PI / 2 and ob.range > 0, "az %r el %r" % (ob.azimuth, ob.elevation))
    h = math.hypot(enz[0], enz[1])
    if h > 1e-9 * r and h > 100 * tol_len:
        mon.angle_near(kind, ob.azimuth, az, 1e-14 + 2 * tol_len / h)


def ground(mon, rng):
    t = gen.epoch(rng)
    la, lo, h = site(rng)
    az, el = azel(rng)
    rr = rng.choice([gen.logu(rng, 1, 60000), rng.uniform(300, 42000)])
    mon.case("ground", t, la, lo, h, az, el, rr)
    s = ref.lla_to_itrf(la, lo, h)
    ax = ref.enz_axes(la, lo)
    enz = (rr * math.cos(el) * math.sin(az), rr * math.cos(el) * math.cos(az), rr * math.sin(el))
    p = ref.itrf_to_gcrf(ref.add(s, ref.mv(ref.tr(ax), enz)), t)
    if ref.norm(p) < 1000:
        return
    v = ref.scale(gen.direction(rng), 3.0)
    L = LLA(la, lo, h)
    g = mon.call("GroundSite", GroundSite, L)
    c = mon.call("Spacecraft", Spacecraft, GCRF(Epoch(t), Vector3D(*p), Vector3D(*v)))
    if rng.random() < 0.2 and ref.norm(p) > 6000:
        mon.call("history", gen.age, rng, c)
        t, p, v = gen.present(c)
        mon.obs["ground-look-moved"] += 1
    look(mon, g, L, c, t, p, la, lo, h, s, ax)
    if rng.random() < 0.2:
        # the same site looks again, at almost the same moment or at almost the same place
        t2 = t + rng.choice([-1, 1]) * gen.logu(rng, 1e-9, 1e-3)
        p2 = ref.add(p, rng.choice([(0.0, 0.0, 0.0), ref.scale(gen.direction(rng), gen.logu(rng, 1e-6, 100))]))
        v2 = rng.choice([v, ref.scale(gen.direction(rng), 3.0)])
        c = mon.call("Spacecraft", Spacecraft, GCRF(Epoch(t2), Vector3D(*p2), Vector3D(*v2)))
        mon.obs["ground-look-again"] += 1
        look(mon, g, L, c, t2, p2, la, lo, h, s, ax)


def look(mon, g, L, c, t, p, la, lo, h, s, ax):
    # what the site truly sees of that inertial position (the nutation matrix is orthogonal only to 2e-8)
    want = ref.mv(ax, ref.sub(ref.gcrf_to_itrf(p, t), s))
    if ref.norm(want) < 1e-3:
        return
    ob = mon.call("angles_and_range", g.angles_and_range, c)
    tl = 1e-14 * (ref.norm(p) + ref.norm(s)) * 4 * (1 + abs(ref.centuries(t)))
    # sidereal angle: the day number carries about 1e-9 rad of rounding at worst
    tl += 3e-13 * math.hypot(*p[:2]) * (1 + 2e4 * 0) + 2e-12 * ref.norm(p)
    check_angles(mon, "ground-look", ob, want, tl)
    mon.vnear("ground-look", ob.observed_direction, want, tl)
    mon.vnear("ground-look", ob.observer_state.position, s, 1e-11)
    mon.equal("ground-look", ob.epoch().value, t)
    mon.equal("ground-look", ob.observer_state.epoch.value, t)
    mon.equal("ground-look", vec(ob.observer_state.velocity), (0, 0, 0))
    lt = ref.lat_tolerance(s, la)
    r = ref.norm(want)
    polar = 1e-13 / max(math.cos(la), 1e-13) if math.cos(la) < 1e-3 else 0.0
    back = mon.call("gcrf_position", ob.gcrf_position)
    slack = tl + (2 * lt + polar) * r
    if math.cos(la) > 1e-6:
        mon.vnear("ground-inverse", back, p, 2.5e-8 * ref.norm(p) + slack)
        mon.vnear("ground-inverse", back, ref.itrf_to_gcrf(ref.gcrf_to_itrf(p, t), t), slack)
        ijk = mon.call("ijk_position", ob.ijk_position)
        mon.vnear("ground-inverse", ijk, ref.itrf_to_ijk(ref.gcrf_to_itrf(p, t), t), slack)
    mon.check("operands", vec(c.position()) == p and (L.latitude, L.longitude, L.altitude) == (la, lo, h) and c.current_epoch().value == t, "operand changed")


def angles(mon, rng):
    t = gen.epoch(rng)
    la, lo, h = site(rng)
    az, el = azel(rng)
    if rng.random() < 0.2:
        az -= PI
    rr = gen.logu(rng, 1e-3, 1e6)
    e1, e2 = gen.logu(rng, 1e-6, 10), gen.logu(rng, 1e-9, 1e-2)
    mon.case("angles", t, la, lo, h, az, el, rr)
    s = ref.lla_to_itrf(la, lo, h)
    st = ITRF.from_fixed(Epoch(t), Vector3D(*s))
    mon.equal("ground-look", (st.epoch.value, vec(st.position), vec(st.velocity)), (t, s, (0, 0, 0)))
    ob = mon.call("from_angles_and_range", GroundObservation.from_angles_and_range, st, az, el, rr, e1, e2)
    enz = (rr * math.cos(el) * math.sin(az), rr * math.cos(el) * math.cos(az), rr * math.sin(el))
    mon.vnear("ground-angles", ob.observed_direction, enz, 1e-14 * rr)
    mon.near("ground-angles", ob.range, rr, 1e-14 * rr)
    mon.near("ground-angles", ob.elevation, el, 1e-14)
    if math.cos(el) > 1e-9:
        mon.angle_near("ground-angles", ob.azimuth, az, 2e-15 + 2e-15 / math.cos(el))
    mon.check("ground-range", 0 <= ob.azimuth <= TWO_PI, "azimuth %r" % ob.azimuth)
    mon.equal("ground-angles", (ob.range_error, ob.angular_error), (e1, e2))
    mon.equal("ground-angles", ob.epoch().value, t)
    b = mon.call("GroundObservation", GroundObservation, st, Vector3D(*enz), e1, e2)
    check_angles(mon, "ground-angles", b, enz, 0.0)
    mon.equal("ground-angles", (b.range_error, b.angular_error), (e1, e2))
    p = ref.add(s, ref.mv(ref.tr(ref.enz_axes(la, lo)), enz))
    if math.cos(la) > 1e-6:
        lt = ref.lat_tolerance(s, la)
        polar = 1e-13 / math.cos(la) if math.cos(la) < 1e-3 else 0.0
        slack = 4e-12 * ref.norm(p) + (2 * lt + polar) * rr
        mon.vnear("ground-inverse", mon.call("gcrf_position", ob.gcrf_position), ref.itrf_to_gcrf(p, t), slack)
        mon.vnear("ground-inverse", mon.call("ijk_position", ob.ijk_position), ref.itrf_to_ijk(p, t), slack)
    mon.check("operands", vec(st.position) == s and st.epoch.value == t, "operand changed")


def space(mon, rng):
    t = gen.epoch(rng)
    r, v = ref.elements_to_rv(*gen.tame_orbit(rng))
    d = ref.scale(gen.direction(rng), gen.logu(rng, 1e-3, rng.choice([6e4, 6e4, 1e6])))
    e1, e2 = gen.logu(rng, 1e-6, 10), gen.logu(rng, 1e-9, 1e-2)
    mon.case("space", t, r, v, d)
    st, D = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)), Vector3D(*d)
    ob = mon.call("SpaceObservation", SpaceObservation, st, D, e1, e2)
    n = ref.norm(d)
    mon.near("space-look", ob.range, n, 1e-14 * n)
    mon.near("space-look", ob.declination, math.atan2(d[2], math.hypot(d[0], d[1])), 1e-14)
    if math.hypot(d[0], d[1]) > 0:
        mon.angle_near("space-look", ob.right_ascension, math.atan2(d[1], d[0]), 1e-14)
    mon.check("space-look", 0 <= ob.right_ascension <= TWO_PI, "right ascension %r" % ob.right_ascension)
    mon.equal("space-look", (ob.range_error, ob.angular_error, vec(ob.observed_direction)), (e1, e2, d))
    mon.equal("space-look", (ob.epoch().value, vec(ob.observer_state.position), vec(ob.observer_state.velocity)), (t, r, v))
    p = ref.add(r, d)
    w = ref.itrf_to_ijk(ref.gcrf_to_itrf(p, t), t)
    mon.vnear("space-position", mon.call("ijk_position", ob.ijk_position), w, 4e-12 * ref.norm(p) + 1e-14 * ref.norm(r))
    mon.check("operands", vec(D) == d and vec(st.position) == r and vec(st.velocity) == v and st.epoch.value == t, "operand changed")


def camera(mon, rng):
    t = gen.epoch(rng)
    r, v = ref.elements_to_rv(*gen.tame_orbit(rng))
    which = rng.choice(["wfov", "nfov"])
    custom = rng.random() < 0.6
    size = rng.choice([0.005, gen.logu(rng, 5e-4, 0.05), gen.logu(rng, 5e-6, 0.2)])
    point = rng.choice([1e-5, gen.logu(rng, 1e-7, 1e-2)])
    own = rng.choice([0.005, 0.02])
    pix, fov = (rng.choice([512, 1024, 4096]), math.radians(rng.uniform(0.05, 8))) if custom else (3072, math.radians(5 if which == "wfov" else 0.125))
    k = math.tan(fov) * 0.5 / pix / (2 * size)
    rr = rng.choice([gen.logu(rng, 1e-6, 0.005), rng.uniform(0.005, 0.12), rng.uniform(0.12, 1.5)]) / k  # range error from a millionth of the range to more than the range
    rr = max(rr, gen.logu(rng, 0.02, 0.1))
    d = ref.scale(gen.direction(rng), rr)
    mon.case("camera", t, r, v, d, which, pix, fov, size, point)
    a = mon.call("Spacecraft", Spacecraft, GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)))
    b = mon.call("Spacecraft", Spacecraft, GCRF(Epoch(t), Vector3D(*ref.add(r, d)), Vector3D(*v)))
    if rng.random() < 0.5:
        for c in (a, b):
            if c is a or ref.norm(ref.add(r, d)) > 6000:
                mon.call("history", gen.age, rng, c)
        t, r, v = gen.present(a)
        mon.obs["camera-moved"] += 1
    d = ref.sub(gen.present(b)[1], r)
    rr = ref.norm(d)
    if not 5e-7 < k * rr < 2:
        return
    if custom:
        setattr(a, which, mon.call("Camera", Camera, pix, fov))
    a.pointing_accuracy, b.body_radius, a.body_radius = point, size, own
    b.pointing_accuracy = 0.3
    re_ = k * rr * rr
    fn = getattr(a, "observe_" + which)
    n = 200
    z1 = z2 = w2 = 0.0
    e1, e2 = ref.perp(d)
    c1 = c2 = 0.0
    random.seed(rng.random())
    for _ in range(n):
        ob = mon.call(which, fn, b)
        mon.near("camera-errors", ob.range_error, re_, 1e-11 * re_)
        mon.equal("camera-errors", ob.angular_error, point)
        s = ob.observer_state
        mon.check("camera-observer", (s.epoch.value, vec(s.position), vec(s.velocity)) == (t, r, v), "observer state differs from the spacecraft's")
        o = vec(ob.observed_direction)
        mon.near("camera-observer", ob.range, ref.norm(o), 1e-13 * ref.norm(o))
        sg = -1.0 if ref.dot(o, d) < 0 else 1.0  # a range error beyond the range puts the look behind the observer
        x = (sg * ref.norm(o) - rr) / re_
        o = ref.scale(o, sg)
        th = ref.angle(o, d)
        z1 += x
        z2 += x * x
        w2 += (th / point) ** 2
        q = ref.unit(o)
        c1 += ref.dot(q, e1)
        c2 += ref.dot(q, e2)
        mon.check("noise-range", abs(x) < 7, "range %g sigma from the truth" % x)
        mon.check("noise-angle", th < 7 * point + 1e-9, "direction %g sigma from the truth" % (th / point))
    m = math.sqrt(n)
    mon.near("noise-range", z1 / n, 0.0, 6 / m)
    mon.near("noise-range", z2 / n, 1.0, 6 * math.sqrt(2) / m)
    mon.near("noise-angle", w2 / n, 1.0, 6 * math.sqrt(2) / m)
    mon.near("noise-angle", c1 / n / point, 0.0, 6 / m)
    mon.near("noise-angle", c2 / n / point, 0.0, 6 / m)
    mon.check("operands", vec(a.position()) == r and vec(ref.sub(vec(b.position()), r)) == d and a.pointing_accuracy == point and b.body_radius == size, "operand changed")
