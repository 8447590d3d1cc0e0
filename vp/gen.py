"""Workload generators: stratified so that every regime a defect could hide in is visited on every run."""
import math

from . import ref

PI = math.pi
TWO_PI = 2 * math.pi
OFFSET = 69.184 / 86400


def logu(rng, lo, hi):
    return math.exp(rng.uniform(math.log(lo), math.log(hi)))


def epoch(rng, lo=15020.0, hi=88069.0):
    """MJD between 1900 and 2100 by default; boundaries of days, UTC days, J2000 and whole years included"""
    k = rng.randrange(10)
    if k < 4:
        return rng.uniform(lo, hi)
    if k == 4:
        return float(rng.randint(int(lo) + 1, int(hi) - 1))
    if k == 5:
        return rng.randint(int(lo) + 1, int(hi) - 1) + OFFSET + rng.choice([0.0, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4])
    if k == 6:
        return 51544.5 + rng.choice([0.0, 0.5, -0.5, 1e-6, -1e-6, 36525.0, -36524.0, 1.0, -1.0])
    if k == 7:
        return rng.randint(int(lo) + 1, int(hi) - 1) + rng.choice([0.25, 0.5, 0.75, 1 - 1e-9, 1e-9])
    if k == 8:
        return rng.uniform(51000, 52000)
    return rng.uniform(57000, 62000)


def burn3(rng, sigma, factor=30.0):
    """a vector of normal components, now and then tens of times longer (burns of over an hour, distances of a thousand km)"""
    s = sigma * (rng.uniform(1, factor) if rng.random() < 0.12 else 1.0)
    return tuple(rng.gauss(0, s) for _ in range(3))


def leap(rng, back, ahead, far=0.4):
    """a time shift in days, mostly short"""
    return rng.uniform(-far, far) if rng.random() < 0.06 else rng.uniform(back, ahead)


def angle(rng, lo=0.0, hi=TWO_PI):
    """angles, with all quadrant boundaries and their neighbourhoods"""
    k = rng.randrange(10)
    if k < 6:
        return rng.uniform(lo, hi)
    q = rng.choice([0.0, PI / 2, PI, 3 * PI / 2, TWO_PI, PI / 4, PI / 6])
    if k == 6:
        x = q
    elif k == 7:
        x = q + rng.choice([-1, 1]) * logu(rng, 1e-14, 1e-2)
    else:
        x = q + rng.uniform(-0.3, 0.3)
    while x < lo:
        x += TWO_PI
    while x > hi:
        x -= TWO_PI
    return x if x >= lo else rng.uniform(lo, hi)


def direction(rng):
    k = rng.randrange(12)
    if k < 6:
        return ref.unit((rng.gauss(0, 1), rng.gauss(0, 1), rng.gauss(0, 1)))
    if k < 8:
        v = [0.0, 0.0, 0.0]
        v[rng.randrange(3)] = rng.choice([-1.0, 1.0])
        return tuple(v)
    if k < 10:
        v = [logu(rng, 1e-12, 1e-2) * rng.choice([-1, 1]) for _ in range(3)]
        v[rng.randrange(3)] = rng.choice([-1.0, 1.0])
        return ref.unit(v)
    t = angle(rng)
    v = [math.cos(t), math.sin(t)]
    v.insert(rng.randrange(3), 0.0)
    return ref.unit(v)


def vec3(rng, lo=1e-3, hi=1e5):
    return ref.scale(direction(rng), logu(rng, lo, hi))


def ecc(rng, hi=0.95):
    k = rng.randrange(12)
    if k == 0:
        return 0.0
    if k == 1:
        return logu(rng, 1e-12, 1e-7)
    if k == 2:
        return logu(rng, 1e-7, 1e-3)
    if k < 9:
        return rng.uniform(0.0, min(hi, 0.75))
    return rng.uniform(0.6, hi) if hi > 0.6 else rng.uniform(0, hi)


def incl(rng):
    k = rng.randrange(12)
    if k == 0:
        return 0.0
    if k == 1:
        return PI
    if k == 2:
        return PI / 2
    if k == 3:
        return logu(rng, 1e-10, 1e-2)
    if k == 4:
        return PI - logu(rng, 1e-10, 1e-2)
    if k == 5:
        return PI / 2 + rng.choice([-1, 1]) * logu(rng, 1e-10, 1e-2)
    return rng.uniform(0.01, PI - 0.01)


def orbit(rng, e_hi=0.9, rp_lo=6400.0, rp_hi=45000.0):
    """classical elements of a bound Earth orbit: (a, e, i, raan, w, M)"""
    e = ecc(rng, e_hi)
    rp = logu(rng, rp_lo, rp_hi)
    if rng.random() < 0.2:
        rp = 42164.17 * (1 - e) if 42164.17 * (1 - e) > rp_lo else rp
    return (rp / (1 - e), e, incl(rng), angle(rng), angle(rng), angle(rng))


def tame_orbit(rng, e_hi=0.3, rp_lo=6700.0, rp_hi=45000.0):
    """generic (non-degenerate) orbit for propagation workloads"""
    e = rng.choice([0.0, 1e-4, rng.uniform(0, e_hi), rng.uniform(0, e_hi / 3)])
    rp = logu(rng, rp_lo, rp_hi)
    k = rng.random()
    if k < 0.08 and rp_lo == 6700.0:  # skimming the atmosphere, or far out
        rp = rng.uniform(6400, 6700)
    elif k > 0.95 and rp_hi == 45000.0 and rp_lo == 6700.0:
        rp = logu(rng, 45000, 150000)
    return (rp / (1 - e), e, rng.choice([rng.uniform(0.02, 3.1), rng.uniform(0.02, 1.7), 0.0, PI / 2]), rng.uniform(0, TWO_PI),
            rng.uniform(0, TWO_PI), rng.uniform(0, TWO_PI))


def rv(rng, **k):
    return ref.elements_to_rv(*tame_orbit(rng, **k))


def nearby(rng, r, v, lo=0.05, hi=500.0):
    """a state separated from (r, v) by roughly lo..hi km with a matching velocity offset"""
    d = logu(rng, lo, hi)
    n = ref.norm(v) / ref.norm(r)
    return (ref.add(r, ref.scale(direction(rng), d)), ref.add(v, ref.scale(direction(rng), d * n * rng.uniform(0, 1))))


def bound_nearby(rng, r, v, lo=0.05, hi=500.0):
    """nearby, and still on a bound orbit clear of the Earth"""
    top = max(-2.0, (ref.norm(v) ** 2 / 2 - ref.MU / ref.norm(r)) / 2)
    for _ in range(100):
        p, q = nearby(rng, r, v, lo, hi)
        en = ref.norm(q) ** 2 / 2 - ref.MU / ref.norm(p)
        if en > top:
            continue
        h = ref.norm(ref.cross(p, q))
        e = math.sqrt(max(0.0, 1 + 2 * en * h * h / ref.MU ** 2))
        if h * h / ref.MU / (1 + e) > 6385:
            return p, q
    return nearby(rng, r, v, lo / 10, lo)


def age(rng, s):
    """give a spacecraft a past; its present is whatever its propagator says afterwards"""
    from openspace.math.linalg import Vector3D
    for _ in range(rng.randint(1, 3)):
        k = rng.randrange(5)
        if k < 2:
            s.step_to_epoch(s.propagator.state.epoch.plus_days(rng.uniform(-0.003, 0.003)))
        elif k == 2:
            s.step()
        elif k == 3:
            s.impulsive_maneuver(Vector3D(*[rng.gauss(0, 0.01) for _ in range(3)]))
        else:
            s.finite_maneuver(Vector3D(*[rng.gauss(0, 0.0005) for _ in range(3)]))


def present(s):
    """epoch, position and velocity held by the propagator of a spacecraft"""
    x = s.propagator.state
    return x.epoch.value, (x.position.x, x.position.y, x.position.z), (x.velocity.x, x.velocity.y, x.velocity.z)


def length(rng, lo, hi, tail=8, p=0.03):
    """how long a history to make: mostly short, now and then much longer"""
    return rng.randint(hi, hi * tail) if rng.random() < p else rng.randint(lo, hi)


def outfit(rng, c, p=0.3):
    """a vehicle with settings of its own: size, brightness, masses, engine, pointing and cameras; every one a public attribute"""
    if rng.random() >= p:
        return c
    if rng.random() < 0.6:
        c.body_radius = logu(rng, 1e-4, 0.1)
    if rng.random() < 0.5:
        c.albedo = rng.uniform(0.01, 1.0)
    if rng.random() < 0.6:
        c.dry_mass, c.propellant_mass = logu(rng, 30, 5000), logu(rng, 20, 5000)
    if rng.random() < 0.6:
        c.m_dot, c.isp = logu(rng, 1e-3, 0.2), rng.uniform(150, 3000)
    if rng.random() < 0.5:
        c.pointing_accuracy = logu(rng, 1e-8, 1e-2)
    if rng.random() < 0.4:
        c.wfov, c.nfov = (type(c.wfov)(rng.randint(256, 8192), math.radians(logu(rng, 0.05, 30))) for _ in range(2))
    return c
