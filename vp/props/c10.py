"""C10 Sun and Moon ephemerides"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.bodies.celestial import Moon, Sun
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("epochs 1800-2200 and years 1-9999 at random, at day/J2000 boundaries and in dense scans; ten historical eclipses; states and spacecraft at "
        "random epochs; non-trivial when the epoch is new")
vec = core.vec
# greatest eclipse, UTC, solar (+1) or lunar (-1): catalogued events, an oracle outside the series themselves
ECLIPSES = [((1991, 7, 11, 19, 6), 1), ((1999, 8, 11, 11, 3), 1), ((2006, 3, 29, 10, 11), 1), ((2009, 7, 22, 2, 35), 1), ((2017, 8, 21, 18, 26), 1),
            ((2019, 7, 2, 19, 23), 1), ((2024, 4, 8, 18, 17), 1), ((2000, 7, 16, 13, 56), -1), ((2015, 9, 28, 2, 47), -1), ((2018, 7, 27, 20, 22), -1)]


def run(mon, rng, tier, worker, workers):
    mon.need("sun-series", "moon-series", "sun-physical", "moon-physical", "smooth", "eclipse", "vectors-from-state", "vectors-from-spacecraft")
    N = (160000 if tier == "quick" else 1500000) // workers
    for _ in range(N):
        mon.run_case(one, mon, rng, gen.epoch(rng) if rng.random() < 0.8 else gen.epoch(rng, *rng.choice([(-21500.0, 124000.0), (-678575.0, 2973483.0)])))
    for k in range(N // 2):
        mon.run_case(one, mon, rng, 15020.0 + 73049.0 * (k * workers + worker + rng.random()) / (N // 2 * workers))
    for _ in range(N // 8):
        mon.run_case(derived, mon, rng)
    for i, (d, kind) in enumerate(ECLIPSES):
        mon.run_case(eclipse, mon, d, kind)


def ecl(p):
    q = ref.mv(ref.rot1(ref.EPS0), p)
    return math.atan2(q[1], q[0]), math.atan2(q[2], math.hypot(q[0], q[1])), ref.norm(q)


def one(mon, rng, t):
    mon.case("epoch", t)
    E = Epoch(t)
    s = vec(mon.call("Sun", Sun.get_position, E))
    m = vec(mon.call("Moon", Moon.get_position, E))
    x = 1 + abs(ref.centuries(t))
    mon.vnear("sun-series", s, ref.sun(t), 0.02 * x)
    mon.vnear("moon-series", m, ref.moon(t), 1e-3 * x)
    lam, beta, r = ecl(s)
    mon.check("sun-physical", 1.470e8 < r < 1.5222e8 and abs(beta) < 1e-12, "sun distance %r ecliptic latitude %r" % (r, beta))
    _, beta, r = ecl(m)
    mon.check("moon-physical", 356000 < r < 407500 and abs(beta) < math.radians(5.4), "moon distance %r latitude %r" % (r, math.degrees(beta)))
    d = rng.choice([-1, 1]) * gen.logu(rng, 1e-5, 0.2)
    E2 = Epoch(t + d)
    dt = abs((t + d) - t) * 86400
    s2, m2 = vec(mon.call("Sun", Sun.get_position, E2)), vec(mon.call("Moon", Moon.get_position, E2))
    # orbital speeds: Sun 29.2-30.4 km/s, Moon 0.95-1.11 km/s (chord slightly shorter than arc)
    v = ref.norm(ref.sub(s2, s))
    mon.check("smooth", 29.0 * dt - 0.1 * x <= v <= 30.6 * dt + 0.1 * x, "Sun moved %r km in %r s" % (v, dt))
    v = ref.norm(ref.sub(m2, m))
    mon.check("smooth", 0.93 * dt - 0.01 * x <= v <= 1.13 * dt + 0.01 * x, "Moon moved %r km in %r s" % (v, dt))
    # both go eastward
    mon.check("smooth", (ecl(s2)[0] - lam + math.pi) % (2 * math.pi) - math.pi > 0 if d > 1e-3 else True, "Sun moved westward")
    mon.check("sun-series", E.value == t, "epoch changed")


def eclipse(mon, d, kind):
    mon.case("eclipse", d, kind)
    t = Epoch.from_gregorian(*d, 0.0).value + gen.OFFSET
    s, m = vec(mon.call("Sun", Sun.get_position, Epoch(t))), vec(mon.call("Moon", Moon.get_position, Epoch(t)))
    sep = ref.angle(s, m) if kind > 0 else ref.angle(ref.scale(s, -1), m)
    mon.check("eclipse", sep < math.radians(1.6 if kind > 0 else 1.1), "separation %.3f deg at the eclipse of %s" % (math.degrees(sep), d))


def derived(mon, rng):
    t = gen.epoch(rng)
    r, v = gen.rv(rng)
    mon.case("derived", t, r)
    st = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    want = ref.sub(ref.sun(t), r), ref.sub(ref.moon(t), r)
    mon.vnear("vectors-from-state", mon.call("sun_vector", st.sun_vector), want[0], 0.05)
    mon.vnear("vectors-from-state", mon.call("moon_vector", st.moon_vector), want[1], 2e-3)
    if rng.random() < 0.2:
        sc = mon.call("Spacecraft", Spacecraft, st)
        mon.vnear("vectors-from-spacecraft", mon.call("sun_vector", sc.sun_vector), want[0], 0.05)
        mon.vnear("vectors-from-spacecraft", mon.call("moon_vector", sc.moon_vector), want[1], 2e-3)
        # after moving, they are those of the new epoch and place
        sc.propagator.step_size = rng.choice([300, 60, -200, 10])
        mon.call("step", sc.step)
        c = sc.current_state()
        e, p = c.epoch.value, vec(c.position)
        mon.vnear("vectors-from-spacecraft", mon.call("sun_vector", sc.sun_vector), ref.sub(ref.sun(e), p), 0.05)
        mon.vnear("vectors-from-spacecraft", mon.call("moon_vector", sc.moon_vector), ref.sub(ref.moon(e), p), 2e-3)
