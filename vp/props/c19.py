"""C19 Gauss orbit determination"""
import math

from openspace.coordinates.states import GCRF, ITRF
from openspace.estimation.iod import Gauss
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("bound orbits e = 0..0.9 (exactly circular, equatorial, polar and retrograde included), first point anywhere incl. both apsides, true-anomaly arcs "
        "0.05..179 degrees covered in under half a period; positions handed over directly, as space looks and as ground looks; non-trivial when orbit and arc are new")
ASSUMPTIONS = ["elements are compared as the orbit they describe (position and velocity), which is what stays defined for circular and equatorial orbits"]
vec = core.vec
DAY = ref.DAY
PI, TWO_PI = math.pi, 2 * math.pi


def run(mon, rng, tier, worker, workers):
    mon.need("epoch", "first-position", "second-position", "orbit", "semi-major-axis", "eccentricity", "plane", "space-looks", "ground-looks", "range")
    N = (400000 if tier == "quick" else 800000) // workers
    for _ in range(N):
        mon.run_case(direct, mon, rng)
    for _ in range(N // 10):
        mon.run_case(looks, mon, rng)


class Fix:
    """an observation: an epoch and an equatorial position"""

    def __init__(self, t, p):
        self.t, self.p = t, p

    def epoch(self):
        return Epoch(self.t)

    def ijk_position(self):
        return Vector3D(*self.p)


def make(rng):
    """orbit and a time step such that the arc is 0.05..179 degrees and less than half a period"""
    while True:
        a, e, i, raan, w, M = gen.orbit(rng, 0.9)
        if e > 0.9:
            continue
        if rng.random() < 0.3:
            M = rng.choice([0.0, PI, TWO_PI - 1e-3, 1e-3, PI - 1e-3, PI + 1e-3])
        if rng.random() < 0.15:
            # first look at the semilatus rectum, where the radius equals the semi-parameter
            E = math.acos(e) + rng.choice([0.0, 0.0, 1e-15, -1e-12, 1e-9])
            M = (E - e * math.sin(E)) if rng.random() < 0.5 else TWO_PI - (E - e * math.sin(E))
        n = math.sqrt(ref.MU / a ** 3)
        f = rng.choice([rng.uniform(0.001, 0.49), gen.logu(rng, 1e-4, 0.3)])
        t = rng.choice([gen.epoch(rng, 36000.0, 88069.0), 51544.5])
        t2 = t + f * TWO_PI / n / DAY
        dt = (t2 - t) * DAY
        if not 0.5 < dt < 0.495 * TWO_PI / n:
            continue
        r1, v1 = ref.elements_to_rv(a, e, i, raan, w, M)
        r2, v2 = ref.kepler_propagate(r1, v1, dt)
        arc = ref.angle(r1, r2)
        # under half a revolution: the second point is ahead of the first in the sense of motion
        if ref.dot(ref.cross(r1, r2), ref.cross(r1, v1)) <= 0:
            continue
        if not math.radians(0.05) < arc < math.radians(179):
            continue
        return (a, e, i, raan, w, M), t, t2, dt, r1, v1, r2, v2, arc


def judge(mon, o, el, t, dt, r1, v1, r2, v2, arc, ptol, kind=None):
    a, e, i, raan, w, M = el
    mon.equal("epoch", o.epoch.value, t)
    got = (o.semimajor_axis, o.eccentricity, o.inclination, o.raan, o.argument_of_perigee, o.mean_anomaly)
    mon.check("range", all(math.isfinite(x) for x in got) and 0 <= got[2] <= PI and got[0] > 0 and -1e-9 <= got[1] < 1
              and 0 <= got[3] <= TWO_PI and 0 <= got[4] <= TWO_PI, "elements %r" % (got,))
    # sensitivity of velocity to the positions: over short arcs v ~ (r2 - r1)/dt, near 180 degrees the plane is ill defined
    s = 1 / math.sin(arc)
    rel = ptol
    r = max(ref.norm(r1), ref.norm(r2))
    rm = min(ref.norm(r1), ref.norm(r2))
    x1 = ref.elements_to_rv(got[0], max(got[1], 0.0), *got[2:])
    amp = (r / rm) ** 2 / (1 - e) * (1 + s)
    mon.vnear(kind or "first-position", x1[0], r1, rel * r * amp * 4)
    x2 = ref.kepler_propagate(x1[0], x1[1], dt)
    mon.vnear(kind or "second-position", x2[0], r2, rel * r * amp * 40)
    vt = rel * (ref.norm(v1) + r / dt) * amp * 10
    mon.vnear(kind or "orbit", x1[1], v1, vt)
    # elements by name
    da = 2 * a * a / ref.MU * ref.norm(v1) * vt + rel * a * a / rm * 10
    mon.near("semi-major-axis", got[0], a, da)
    mon.near("eccentricity", got[1], e, 4 * vt / ref.norm(v1) * (ref.norm(v1) ** 2 * r / ref.MU) + rel * amp * 20 + 1e-9)
    h = ref.unit(ref.cross(r1, v1))
    k = (math.sin(got[2]) * math.sin(got[3]), -math.sin(got[2]) * math.cos(got[3]), math.cos(got[2]))
    mon.vnear("plane", k, h, rel * 20 * s * (r / rm) + 1e-9 * 0)


def direct(mon, rng):
    el, t, t2, dt, r1, v1, r2, v2, arc = make(rng)
    mon.case("direct", el, t, dt, math.degrees(arc))
    o = mon.call("coes_from_positions", Gauss.coes_from_positions, Fix(t, r1), Fix(t2, r2))
    judge(mon, o, el, t, dt, r1, v1, r2, v2, arc, TOL)


TOL = 1e-12


def looks(mon, rng):
    """the same through real observations: the observers see the target and the determination goes through their frames"""
    el, t, t2, dt, r1, v1, r2, v2, arc = make(rng)
    ground = rng.random() < 0.5
    # the elements are determined in the equatorial frame of date of each look: build positions whose equatorial coordinates are r1, r2
    out = []
    mon.case("looks", el, t, dt, math.degrees(arc), ground)
    for tt, p in ((t, r1), (t2, r2)):
        f = ref.mv(ref.rot3(ref.gmst(tt)), p)  # Earth-fixed
        if ground:
            la, lo = rng.uniform(-1.3, 1.3), rng.uniform(0, TWO_PI)
            s = ref.lla_to_itrf(la, lo, rng.uniform(0, 3))
            enz = ref.mv(ref.enz_axes(la, lo), ref.sub(f, s))
            out.append(GroundObservation(ITRF.from_fixed(Epoch(tt), Vector3D(*s)), Vector3D(*enz), 0, 0))
        else:
            g = ref.itrf_to_gcrf(f, tt)
            for _ in range(3):  # invert the (not exactly orthogonal) forward transformation
                g = ref.add(g, ref.itrf_to_gcrf(ref.sub(f, ref.gcrf_to_itrf(g, tt)), tt))
            ro, vo = ref.elements_to_rv(*gen.tame_orbit(rng))
            out.append(SpaceObservation(GCRF(Epoch(tt), Vector3D(*ro), Vector3D(*vo)), Vector3D(*ref.sub(g, ro)), 0, 0))
    o = mon.call("coes_from_positions", Gauss.coes_from_positions, out[0], out[1])
    judge(mon, o, el, t, dt, r1, v1, r2, v2, arc, 3e-8 if ground else 1e-10, "ground-looks" if ground else "space-looks")
