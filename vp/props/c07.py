"""C07 orbital elements <-> Cartesian states"""
import math

from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.states import IJK
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("bound orbits: perigee 6500-45000 km, e in {0, 1e-12..1e-3, up to 0.95}, i in {0, pi, pi/2, neighbourhoods, general}, all "
        "quadrants of node, perigee and anomaly, plus Cartesian states built directly (axis-aligned circular/equatorial/polar/"
        "retrograde); non-trivial when the orbit is new")
vec = core.vec
TWO_PI = 2 * math.pi
PI = math.pi


def run(mon, rng, tier, worker, workers):
    mon.need("state-round-trip", "element-round-trip", "elements-to-state", "semi-major-axis", "eccentricity", "plane", "perigee-direction",
             "epoch", "range", "circular-equatorial")
    N = (240000 if tier == "quick" else 800000) // workers
    for _ in range(N):
        mon.run_case(from_elements, mon, rng, gen.orbit(rng, 0.95))
    for _ in range(N // 2):
        mon.run_case(special_state, mon, rng)


def mkstate(t, r, v):
    return IJK(Epoch(t), Vector3D(*r), Vector3D(*v))


def from_elements(mon, rng, el):
    t = gen.epoch(rng)
    a, e, i, raan, w, M = el
    if rng.random() < 0.2:
        M += rng.choice([-1, 1]) * TWO_PI * rng.choice([1, 2, 0.5])
        w += rng.choice([-1, 0, 1]) * TWO_PI
    mon.case("elements", t, a, e, i, raan, w, M)
    el_obj = mon.call("elements", ClassicalElements, Epoch(t), a, e, i, raan, w, M)
    s = mon.call("to_ijk", el_obj.to_ijk)
    r, v = ref.elements_to_rv(a, e, i, raan, w, M)
    R, S = ref.norm(r), ref.norm(v)
    amp = 1 / (1 - e)
    mon.vnear("elements-to-state", s.position, r, 1e-11 * R * amp)
    mon.vnear("elements-to-state", s.velocity, v, 1e-11 * S * amp)
    mon.equal("epoch", s.epoch.value, t)
    q = ref.perifocal(i, raan, w)
    mon.vnear("perigee-direction", mon.call("perigee_vector", el_obj.perigee_vector), q[0], 1e-14)
    mon.vnear("perigee-direction", mon.call("semilatus_rectum_vector", el_obj.semilatus_rectum_vector), q[1], 1e-14)
    mon.angle_near("elements-to-state", mon.call("eccentric_anomaly", el_obj.eccentric_anomaly), ref.kepler_E(M, e),
                   4e-12 / (1 - e * math.cos(ref.kepler_E(M, e))) + 1e-13)
    mon.check("epoch", (el_obj.semimajor_axis, el_obj.eccentricity, el_obj.inclination, el_obj.raan, el_obj.argument_of_perigee,
                        el_obj.mean_anomaly, el_obj.epoch.value) == (a, e, i, raan, w, M, t), "element set changed by queries")
    # state -> elements -> state, from the exact reference state
    back(mon, t, r, v, (a, e, i, raan, w, M))


def back(mon, t, r, v, el=None):
    st = mkstate(t, r, v)
    c = mon.call("from_ijk", ClassicalElements.from_ijk, st)
    R, S = ref.norm(r), ref.norm(v)
    h = ref.cross(r, v)
    H = ref.norm(h)
    a = 1 / (2 / R - S * S / ref.MU)
    ev = ref.sub(ref.scale(ref.cross(v, h), 1 / ref.MU), ref.unit(r))
    e = ref.norm(ev)
    hu = ref.unit(h)
    si = math.hypot(hu[0], hu[1])
    amp = a / R
    mon.equal("epoch", c.epoch.value, t)
    mon.near("semi-major-axis", c.semimajor_axis, a, 2e-14 * a * (1 + amp))
    # e comes from sqrt(1 - p/a): absolute error u/e, saturating at sqrt(u)
    de = min(6e-8, 2e-15 * (1 + amp) / max(e, 1e-30)) * 4 + 1e-13 * amp
    mon.near("eccentricity", c.eccentricity, e, de)
    inc = math.atan2(si, hu[2])
    mon.near("plane", c.inclination, inc, 1e-14)
    mon.check("range", 0 <= c.inclination <= PI and 0 <= c.raan <= TWO_PI and 0 <= c.argument_of_perigee <= TWO_PI + 1e-12
              and 0 <= c.mean_anomaly <= TWO_PI and 0 <= c.eccentricity < 1, "element outside its range",
              i=c.inclination, raan=c.raan, w=c.argument_of_perigee, M=c.mean_anomaly, e=c.eccentricity)
    # the plane and, where defined, the perigee point where the state says they do
    p = ref.perifocal(c.inclination, c.raan, c.argument_of_perigee)
    mon.vnear("plane", p[2], hu, 3e-14)
    if e > 1e-5:
        mon.vnear("perigee-direction", mon.call("perigee_vector", c.perigee_vector), ref.unit(ev), 2e-14 * (1 + amp) / (e * e) + 4e-15 / max(si, 1e-12) + 1e-12 * amp)
    b = mon.call("to_ijk", c.to_ijk)
    mon.equal("epoch", b.epoch.value, t)
    # near-circular: the sqrt in e costs up to 1e-7; near-equatorial: node and argument cancel to u/sin(i)
    tol = 4 * de * amp + 2e-13 * amp * amp + (2e-13 / si if si > 0 else 0)
    mon.vnear("state-round-trip", b.position, r, R * tol)
    mon.vnear("state-round-trip", b.velocity, v, S * tol * (1 + amp))
    if el:
        a0, e0, i0, raan0, w0, M0 = el
        mon.near("element-round-trip", c.semimajor_axis, a0, 4e-14 * a0 * (1 + amp) * (1 + amp))
        mon.near("element-round-trip", c.eccentricity, e0, de)
        mon.near("element-round-trip", c.inclination, i0, 2e-14)
        if si > 1e-8:
            mon.angle_near("element-round-trip", c.raan, raan0, 4e-15 / si + 2e-14)
        if e0 > 1e-5:
            t1 = 4e-15 * (1 + amp) / e0 + de / e0 * 2 + 1e-12 * amp
            mon.angle_near("element-round-trip", c.mean_anomaly, M0, t1 * 4)
            if si > 1e-8:
                mon.angle_near("element-round-trip", c.argument_of_perigee, w0, t1 * 4 / (1 - e0) + 8e-15 / si)
        if si > 1e-8 and e0 <= 1e-5:
            # only the argument of latitude is well defined (to 2e times the anomaly error)
            mon.angle_near("element-round-trip", c.argument_of_perigee + c.mean_anomaly, w0 + M0, 8 * de + 4 * e0 + 8e-15 / si + 1e-12)
    mon.check("epoch", vec(st.position) == r and vec(st.velocity) == v and st.epoch.value == t, "state changed by conversion")


def special_state(mon, rng):
    """states typed in directly, with exact zeros: circular, equatorial, polar, retrograde, apsides"""
    t = gen.epoch(rng)
    R = rng.choice([6578.137, 7000.0, 42164.0, 42164.1696, 26560.0, gen.logu(rng, 6500, 60000)])
    k = rng.randrange(6)
    f = 1.0 if k < 3 else rng.choice([rng.uniform(0.75, 1.3), 1.1, 0.9])
    s = f * math.sqrt(ref.MU / R)
    axes = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0)]
    kind = rng.randrange(5)
    if kind == 0:  # position and velocity along coordinate axes: equatorial, polar, both senses
        x, y = rng.sample(axes, 2)
        r, v = ref.scale(x, rng.choice([-1, 1]) * R), ref.scale(y, rng.choice([-1, 1]) * s)
    elif kind == 1:  # exactly equatorial, any longitude, any flight path
        u = gen.angle(rng)
        g = rng.choice([0.0, rng.uniform(-0.3, 0.3)])
        d = rng.choice([-1, 1])
        r = (R * math.cos(u), R * math.sin(u), 0.0)
        ang = u + d * (PI / 2 - g)
        v = (s * math.cos(ang), s * math.sin(ang), 0.0)
    elif kind == 2:  # exactly polar
        u = gen.angle(rng)
        r = (R * math.cos(u), 0.0, R * math.sin(u))
        v = (-s * math.sin(u), 0.0, s * math.cos(u))
        if rng.random() < 0.5:
            r, v = (r[1], r[0], r[2]), (v[1], v[0], v[2])
        if rng.random() < 0.5:
            v = ref.scale(v, -1.0)
    elif kind == 3:  # position on an axis, general velocity
        x = rng.choice(axes)
        r = ref.scale(x, R)
        e1, e2 = ref.perp(r)
        th = gen.angle(rng)
        v = ref.scale(ref.add(ref.scale(e1, math.cos(th)), ref.scale(e2, math.sin(th))), s)
    else:  # circular, general plane
        d = gen.direction(rng)
        e1, e2 = ref.perp(d)
        r, v = ref.scale(e1, R), ref.scale(e2, s)
    mon.case("state", t, r, v)
    rr, vv = tuple(x + 0.0 for x in r), tuple(x + 0.0 for x in v)
    h = ref.unit(ref.cross(rr, vv))
    mon.obs["circular-equatorial"] += 1
    if 0 < math.hypot(h[0], h[1]) < 1e-9:
        return  # within rounding of equatorial but not exactly so: node undefined to 1e-6, covered by from_elements
    back(mon, t, rr, vv)
