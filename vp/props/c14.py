"""C14 relative <-> inertial conversion"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF, HCW, StateConvert
from openspace.math.linalg import Vector3D, Vector6D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("origins on circular, eccentric, polar, equatorial and retrograde orbits and with arbitrary velocities; offsets from metres to thousands of km, "
        "in-track arcs up to half a turn and cross-track arcs up to 85 degrees; non-trivial when origin and offset are new")
ASSUMPTIONS = []
vec, mat = core.vec, core.mat


def run(mon, rng, tier, worker, workers):
    mon.need("to-relative", "to-inertial", "round-trip-inertial", "round-trip-relative", "origin-is-zero", "axes", "epoch", "rate", "hill-position", "from-vector", "operands")
    N = (120000 if tier == "quick" else 1000000) // workers
    for _ in range(N):
        mon.run_case(forward, mon, rng)
        mon.run_case(backward, mon, rng)
    for _ in range(N // 20):
        mon.run_case(craft, mon, rng)
        mon.run_case(rate, mon, rng)


def origin(rng):
    k = rng.randrange(6)
    if k < 4:
        return ref.elements_to_rv(*gen.orbit(rng))
    while True:
        r = ref.scale(gen.direction(rng), gen.logu(rng, 6500, 60000))
        v = ref.scale(gen.direction(rng), gen.logu(rng, 0.5, 11))
        if ref.norm(ref.cross(r, v)) > 1e-3 * ref.norm(r) * ref.norm(v):
            return r, v


def state(t, r, v):
    return GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))


def offset(rng, ro):
    d = ref.norm(ro)
    k = rng.randrange(6)
    if k < 3:
        s = gen.logu(rng, 1e-3, 500)
        return ref.scale(gen.direction(rng), s)
    if k == 3:
        return tuple(rng.choice([0.0, rng.choice([-1, 1]) * gen.logu(rng, 1e-3, 100)]) for _ in range(3))
    return (rng.uniform(-0.5, 1.0) * d * rng.choice([1, 0.01]), rng.uniform(-3.14, 3.14) * d, rng.uniform(-1.48, 1.48) * d * rng.choice([1, 0.1]))


def conditioning(ro, vo):
    """rounding of the orbit normal when position and velocity are nearly parallel"""
    return ref.norm(ro) * ref.norm(vo) / ref.norm(ref.cross(ro, vo))


def forward(mon, rng):
    t = gen.epoch(rng)
    ro, vo = origin(rng)
    if rng.random() < 0.6:
        r, v = gen.nearby(rng, ro, vo)
    else:
        x = offset(rng, ro)
        r, v = ref.from_hcw(x, ref.scale(gen.direction(rng), gen.logu(rng, 1e-6, 3)), ro, vo)
    mon.case("forward", t, ro, vo, r, v)
    o, s = state(t, ro, vo), state(t + rng.choice([0, 0.125]), r, v)
    m = mat(mon.call("frame_matrix", HCW.frame_matrix, o))
    want = ref.ric(ro, vo)
    k = conditioning(ro, vo)
    for i in range(3):
        mon.vnear("axes", m[i], want[i], 4e-15 * k)
        for j in range(3):
            mon.near("axes", ref.dot(m[i], m[j]), float(i == j), 4e-15 * k)
    x, xd = ref.to_hcw(ro, vo, r, v)
    q = ref.mv(want, r)
    cl = math.hypot(q[0], q[1]) / ref.norm(r)  # cosine of the cross-track arc
    h = mon.call("to_hcw", StateConvert.gcrf.to_hcw, o, s)
    L = ref.norm(r) + ref.norm(ro)
    V = ref.norm(v) + ref.norm(vo) + ref.norm(vo) * ref.norm(r) / ref.norm(ro)
    pt = 2e-14 * L * k / cl ** 2
    vt = 2e-14 * (V * L / min(ref.norm(r), ref.norm(ro))) * k / cl ** 3
    mon.vnear("to-relative", h.position, x, pt)
    mon.vnear("to-relative", h.velocity, xd, vt)
    mon.near("to-relative", h.position.x, ref.norm(r) - ref.norm(ro), 2e-14 * L)
    mon.equal("epoch", h.epoch.value, t)
    mon.check("to-relative", isinstance(h, HCW), "not a relative state: %r" % type(h))
    b = mon.call("to_gcrf", StateConvert.hcw.to_gcrf, h, o)
    mon.vnear("round-trip-inertial", b.position, r, 4 * pt)
    mon.vnear("round-trip-inertial", b.velocity, v, 6 * vt)
    mon.equal("epoch", b.epoch.value, t)
    z = mon.call("to_hcw", StateConvert.gcrf.to_hcw, o, o)
    mon.vnear("origin-is-zero", z.position, (0.0, 0.0, 0.0), 2e-14 * ref.norm(ro) * k)
    mon.vnear("origin-is-zero", z.velocity, (0.0, 0.0, 0.0), 2e-14 * ref.norm(vo) * k)
    mon.check("operands", (vec(o.position), vec(o.velocity), o.epoch.value, vec(s.position), vec(s.velocity)) == (ro, vo, t, r, v), "operand changed")


def backward(mon, rng):
    t = gen.epoch(rng)
    ro, vo = origin(rng)
    x = offset(rng, ro)
    xd = rng.choice([(0.0, 0.0, 0.0), ref.scale(gen.direction(rng), gen.logu(rng, 1e-6, 2))])
    mon.case("backward", t, ro, vo, x, xd)
    o = state(t, ro, vo)
    h = HCW(Epoch(t - rng.choice([0, 1])), Vector3D(*x), Vector3D(*xd))
    s = mon.call("to_gcrf", StateConvert.hcw.to_gcrf, h, o)
    r, v = ref.from_hcw(x, xd, ro, vo)
    k = conditioning(ro, vo)
    L = ref.norm(r) + ref.norm(ro)
    V = ref.norm(v) + ref.norm(vo)
    mon.vnear("to-inertial", s.position, r, 2e-14 * L * k)
    mon.vnear("to-inertial", s.velocity, v, 4e-14 * V * k)
    mon.equal("epoch", s.epoch.value, t)
    mon.check("to-inertial", isinstance(s, GCRF), "not an inertial state: %r" % type(s))
    b = mon.call("to_hcw", StateConvert.gcrf.to_hcw, o, s)
    cl = math.cos(x[2] / ref.norm(ro))
    f = L / min(ref.norm(r), ref.norm(ro))
    mon.vnear("round-trip-relative", b.position, x, 6e-14 * L * k * f / cl ** 2)
    mon.vnear("round-trip-relative", b.velocity, xd, 2e-13 * V * k * f * f / cl ** 3)
    z = mon.call("to_gcrf", StateConvert.hcw.to_gcrf, HCW(Epoch(t), Vector3D(0, 0, 0), Vector3D(0, 0, 0)), o)
    mon.vnear("origin-is-zero", z.position, ro, 2e-14 * ref.norm(ro) * k)
    mon.vnear("origin-is-zero", z.velocity, vo, 2e-14 * ref.norm(vo) * k)
    w = mon.call("from_state_vector", HCW.from_state_vector, Vector6D(*(x + xd)))
    mon.check("from-vector", vec(w.position) == x and vec(w.velocity) == xd and vec(w.vector) == x + xd, "state vector not unpacked")
    mon.check("operands", (vec(o.position), vec(o.velocity), vec(h.position), vec(h.velocity)) == (ro, vo, x, xd), "operand changed")


def rate(mon, rng):
    """relative velocity is the rate of the relative position along unforced motion of both vehicles"""
    t = gen.epoch(rng)
    a = gen.tame_orbit(rng, 0.5)
    ro, vo = ref.elements_to_rv(*a)
    r, v = gen.nearby(rng, ro, vo, 0.1, 2000)
    while ref.norm(v) ** 2 / 2 - ref.MU / ref.norm(r) > -0.5:  # the reference moves bound orbits
        r, v = gen.nearby(rng, ro, vo, 0.1, 500)
    mon.case("rate", t, ro, vo, r, v)

    def at(dt):
        o = ref.kepler_propagate(ro, vo, dt)
        s = ref.kepler_propagate(r, v, dt)
        return vec(mon.call("to_hcw", StateConvert.gcrf.to_hcw, state(t, *o), state(t, *s)).position), ref.norm(o[0])

    d = ref.norm(ro)
    h = 0.5
    got = vec(mon.call("to_hcw", StateConvert.gcrf.to_hcw, state(t, ro, vo), state(t, r, v)).velocity)

    def axis(i):
        f = lambda dt: (lambda p, m: p[i] if i == 0 else p[i] / m * d)(*at(dt))  # noqa: E731  arcs, not lengths, carry the rate
        return (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)

    mon.vnear("rate", got, (axis(0), axis(1), axis(2)), 3e-9 + 1e-8 * ref.norm(got))


def craft(mon, rng):
    t = gen.epoch(rng)
    ro, vo = ref.elements_to_rv(*gen.tame_orbit(rng))
    r, v = gen.nearby(rng, ro, vo, 0.01, 3000)
    mon.case("craft", t, ro, vo, r, v)
    a = mon.call("Spacecraft", Spacecraft, state(t, ro, vo))
    b = mon.call("Spacecraft", Spacecraft, state(t, r, v))
    got = mon.call("hill_position", a.hill_position, b)
    mon.vnear("hill-position", got, ref.to_hcw(ro, vo, r, v)[0], 4e-14 * (ref.norm(r) + ref.norm(ro)))
    mon.vnear("hill-position", mon.call("hill_position", a.hill_position, a), (0.0, 0.0, 0.0), 4e-14 * ref.norm(ro))
    mon.check("operands", vec(a.position()) == ro and vec(b.position()) == r, "operand changed")
