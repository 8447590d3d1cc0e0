"""C15 maneuvers and the propellant ledger"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.propagators.inertial import RK4
from openspace.time import Epoch

from .. import core, gen, ref
from . import c12

RULE = ("random programs of impulsive burns, finite burns (mm/s to hundreds of m/s: from a fraction of one to hundreds of integration steps), coasts and single "
        "steps on spacecraft with default and custom masses, flow rates and specific impulses, perturbations on/off; a ledger of velocity, epoch, mass and propellant "
        "is kept by the monitor; non-trivial when the program is new")
ASSUMPTIONS = ["standard gravity is the package's 9.81 m/s^2", "burns use less propellant than the vehicle's total mass"]
vec = core.vec
DAY = ref.DAY


def run(mon, rng, tier, worker, workers):
    mon.need("impulse", "impulse-keeps", "burn-state", "burn-epoch", "burn-delta-v", "ledger", "total-mass", "thrust-off", "coast-after", "settings-kept", "propagator-burn", "zero-burn")
    N = (14400 if tier == "quick" else 24000) // workers
    for _ in range(N):
        mon.run_case(program, mon, rng)
    for _ in range(N * 2):
        mon.run_case(impulses, mon, rng)
    for _ in range(N // 4):
        mon.run_case(bare, mon, rng)
        mon.run_case(free_space, mon, rng)


def burn(rng, lo=1e-6, hi=0.5):
    k = rng.randrange(5)
    m = gen.logu(rng, lo, hi)
    if k < 3:
        v = [0.0, 0.0, 0.0]
        v[k] = m * rng.choice([-1, 1])
        return tuple(v)
    return ref.scale(gen.direction(rng), m)


def craft(mon, rng, t, r, v, pert, cfg):
    s = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    if not pert:
        s.use_perturbations = False
    c = mon.call("Spacecraft", Spacecraft, s)
    if cfg:
        c.dry_mass, c.propellant_mass, c.m_dot, c.isp = cfg
    return c


def snap(c):
    s = c.propagator.state
    return s.epoch.value, vec(s.position), vec(s.velocity)


def do_impulse(mon, c, b, pert):
    t, r, v = snap(c)
    led = c.dry_mass, c.propellant_mass, c.m_dot, c.isp
    size = c.propagator.step_size
    B = Vector3D(*b)
    mon.call("impulsive_maneuver", c.impulsive_maneuver, B)
    t1, r1, v1 = snap(c)
    m = ref.ric(r, v)
    k = ref.norm(r) * ref.norm(v) / ref.norm(ref.cross(r, v))
    mon.vnear("impulse", v1, ref.add(v, ref.mv(ref.tr(m), b)), 1e-14 * (ref.norm(v) + ref.norm(b)) * k)
    mon.vnear("impulse", r1, r, 1e-14 * ref.norm(r) * k)
    mon.equal("impulse-keeps", t1, t)
    mon.equal("impulse-keeps", (c.dry_mass, c.propellant_mass, c.m_dot, c.isp), led)
    mon.near("total-mass", c.total_mass(), led[0] + led[1], 1e-12 * (led[0] + led[1]))
    mon.check("settings-kept", c.propagator.step_size == size and c.propagator.state.use_perturbations is pert and vec(B) == b, "propagator settings or burn vector changed")
    mon.vnear("thrust-off", c.propagator.state.acceleration_from_thrust(), (0.0, 0.0, 0.0), 0.0)


def do_burn(mon, c, b, pert):
    t, r, v = snap(c)
    size = c.propagator.step_size
    m0, md, isp = c.dry_mass + c.propellant_mass, c.m_dot, c.isp
    dry, prop = c.dry_mass, c.propellant_mass
    B = Vector3D(*b)
    mon.call("finite_maneuver", c.finite_maneuver, B)
    got = snap(c)
    dv = ref.norm(b)
    dur = ref.burn_duration(dv, md, m0, isp)
    u = ref.mv(ref.tr(ref.ric(r, v)), b)
    used = md * dur
    kind = "ledger"
    mon.near(kind, c.propellant_mass, prop - used, 1e-9 * used + 1e-11 * m0)
    mon.equal(kind, (c.dry_mass, c.m_dot, c.isp), (dry, md, isp))
    mon.near("total-mass", mon.call("total_mass", c.total_mass), c.dry_mass + c.propellant_mass, 1e-12 * m0)
    mon.check("settings-kept", c.propagator.step_size == size and c.propagator.state.use_perturbations is pert and vec(B) == b, "propagator settings or burn vector changed")
    ns = ref.step_counts(dur)
    n = max(1, ns[-1])
    mon.near("burn-epoch", got[0], t + dur / DAY, c12.ulps(t, 2 * n + 6) + 1e-9 * dur / DAY)
    if dv == 0:
        mon.check("zero-burn", got == (t, r, v), "a zero burn changed the state")
        return
    # the duration is rounded to the resolution of the epoch (about 0.6 microseconds): allow that much extra thrust and motion
    q = math.ulp(t) * DAY * (n + 2)
    acc = md * isp * ref.G0 / (m0 - used)
    T = c12.tolerances(r, v, dur, dur / n)
    tr_ = T[0] + q * 12 + 1e-11 * dur * dur * acc + 1e-9 * dv * dur
    tv = T[1] + q * (acc + 0.01) + 1e-9 * dv
    dead = got[0] - t
    opts = []
    for k in ns:
        if k:
            opts.append(burn_ref(t, r, v, u, dead * DAY, md, m0, isp, pert, k))
    if not opts:
        opts = [(t, r, v)]
        tr_ += ref.norm(v) * dur + 1
        tv += dv
    best = min(opts, key=lambda o: ref.norm(ref.sub(got[2], o[2])))
    mon.vnear("burn-state", got[1], best[1], tr_)
    mon.vnear("burn-state", got[2], best[2], tv)
    # velocity change beyond the coast is the commanded one, whatever the length (gravity differs along the displaced path)
    co = ref.propagate(t, r, v, got[0], pert, max(n, 1))
    g = ref.sub(got[2], co[2])
    nn = math.sqrt(ref.MU / c12.perigee(r, v) ** 3)
    if nn * dur < 0.3:
        mon.vnear("burn-delta-v", g, u, tv + 4 * dv * (nn * dur) ** 2 + 0.02 * dv * (used / n / (m0 - used)) ** 4 + 1e-9)
    mon.vnear("thrust-off", c.propagator.state.acceleration_from_thrust(), (0.0, 0.0, 0.0), 0.0)


def burn_ref(t, r, v, u, dur, md, m0, isp, pert, n):
    h = dur / n
    w = ref.unit(u)
    for k in range(n):
        def thrust(dt, k=k):
            return ref.scale(w, md * isp * ref.G0 / (m0 - md * (k * h + dt)))
        t, r, v = ref.rk4_step(t, r, v, h, pert, thrust)
    return t, r, v


def config(rng):
    if rng.random() < 0.4:
        return None
    return (gen.logu(rng, 50, 5000), gen.logu(rng, 20, 3000), gen.logu(rng, 1e-4, 1.0), gen.logu(rng, 60, 3000))


def max_dv(cfg, steps):
    dry, prop, md, isp = cfg or (600, 200, 0.003, 350)
    m0 = dry + prop
    frac = min(0.5, md * 300 * steps / m0)
    return -math.log(1 - frac) * isp * ref.G0


def program(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    pert = rng.random() < 0.6
    a = gen.tame_orbit(rng, 0.4, 7000)
    r, v = ref.elements_to_rv(*a)
    cfg = config(rng)
    ops = []
    for _ in range(gen.length(rng, 1, 5, 6)):
        k = rng.randrange(8)
        if k < 4:
            hi = max(2e-6, min(0.4, max_dv(cfg, rng.choice([0.9, 3, 3, 10, 30]))))
            ops.append(("burn", burn(rng, max(1e-6, hi / 30), hi)))
        elif k == 4:
            ops.append(("impulse", burn(rng)))
        elif k == 5:
            ops.append(("burn", (0.0, 0.0, 0.0)) if rng.random() < 0.5 else ("burn", burn(rng, 1e-9, 1e-5)))
        elif k == 6:
            ops.append(("coast", rng.choice([-1, 1]) * gen.logu(rng, 1, 5000)))
        else:
            ops.append(("step", rng.choice([300, gen.logu(rng, 1, 300)])))
    mon.case("program", t, a, pert, cfg, ops)
    c = craft(mon, rng, t, r, v, pert, cfg)
    for op, x in ops:
        if op == "burn":
            do_burn(mon, c, x, pert)
            # coasting afterwards is unforced
            t0, r0, v0 = snap(c)
            prop = c.propellant_mass
            mon.call("coast", c.step_to_epoch, Epoch(t0 + 100.0 / DAY))
            t1, r1, v1 = snap(c)
            T = c12.tolerances(r0, v0, 100.0, 100.0)
            w = ref.rk4_step(t0, r0, v0, (t1 - t0) * DAY, pert)
            q = math.ulp(t0) * DAY * 4
            mon.vnear("coast-after", r1, w[1], T[0] + q * 12)
            mon.vnear("coast-after", v1, w[2], T[1] + q * 0.01)
            mon.equal("ledger", c.propellant_mass, prop)
        elif op == "impulse":
            do_impulse(mon, c, x, pert)
        elif op == "coast":
            prop = c.propellant_mass
            c12.do_epoch(mon, _Wrap(c), snap(c)[0] + x / DAY, pert)
            mon.equal("ledger", c.propellant_mass, prop)
        else:
            prop = c.propellant_mass
            c12.do_step(mon, _Wrap(c), x, pert)
            mon.equal("ledger", c.propellant_mass, prop)


class _Wrap:
    def __init__(self, c):
        self.o = c

    def p(self):
        return self.o.propagator

    def snap(self):
        return snap(self.o)


def impulses(mon, rng):
    t = gen.epoch(rng)
    pert = rng.random() < 0.7
    a = gen.orbit(rng)
    r, v = ref.elements_to_rv(*a)
    bs = [burn(rng, 1e-9, rng.choice([2.0, 2.0, 20.0])) for _ in range(gen.length(rng, 1, 3, 10))]
    mon.case("impulses", t, a, pert, bs)
    c = craft(mon, rng, t, r, v, pert, config(rng))
    c.propagator.step_size = rng.choice([300, 60.0, -10.0])
    for b in bs:
        if ref.norm(ref.cross(*snap(c)[1:])) < 1e-2 * ref.norm(r) * ref.norm(v):
            return
        do_impulse(mon, c, b, pert)


def bare(mon, rng):
    """RK4.maneuver itself: direction given in inertial axes, thrust off afterwards"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    pert = rng.random() < 0.5
    a = gen.tame_orbit(rng, 0.4, 7000)
    r, v = ref.elements_to_rv(*a)
    cfg = config(rng) or (600, 200, 0.003, 350)
    m0 = cfg[0] + cfg[1]
    u = burn(rng, 1e-5, max(2e-5, min(0.5, max_dv(cfg, rng.choice([1, 5, 20])))))
    mon.case("bare", t, a, pert, cfg, u)
    s = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    s.use_perturbations = pert
    p = mon.call("RK4", RK4, s)
    p.step_size = 77.0
    U = Vector3D(*u)
    mon.call("maneuver", p.maneuver, U, cfg[2], m0, cfg[3])
    dur = ref.burn_duration(ref.norm(u), cfg[2], m0, cfg[3])
    ns = [n for n in ref.step_counts(dur) if n]
    got = p.state.epoch.value, vec(p.state.position), vec(p.state.velocity)
    mon.near("burn-epoch", got[0], t + dur / DAY, c12.ulps(t, 2 * ns[-1] + 6) + 1e-9 * dur / DAY)
    opts = [burn_ref(t, r, v, u, (got[0] - t) * DAY, cfg[2], m0, cfg[3], pert, n) for n in ns]
    best = min(opts, key=lambda o: ref.norm(ref.sub(got[2], o[2])))
    q = math.ulp(t) * DAY * (ns[-1] + 2)
    acc = cfg[2] * cfg[3] * ref.G0 / (m0 - cfg[2] * dur)
    T = c12.tolerances(r, v, dur, dur / ns[-1])
    dv = ref.norm(u)
    mon.vnear("propagator-burn", got[1], best[1], T[0] + q * 12 + 1e-9 * dv * dur)
    mon.vnear("propagator-burn", got[2], best[2], T[1] + q * (acc + 0.01) + 1e-9 * dv)
    mon.check("settings-kept", p.step_size == 77.0 and p.state.use_perturbations is pert and vec(U) == u, "settings changed by a maneuver")
    t0, r0, v0 = got
    mon.call("step", p.step)
    w = ref.rk4_step(t0, r0, v0, 77.0, pert)
    T = c12.tolerances(r0, v0, 77.0, 77.0)
    mon.vnear("coast-after", vec(p.state.position), w[1], T[0])
    mon.vnear("coast-after", vec(p.state.velocity), w[2], T[1])


def free_space(mon, rng):
    """far from every body the velocity change of a burn of any length is the commanded vector"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    cfg = config(rng) or (600, 200, 0.003, 350)
    m0 = cfg[0] + cfg[1]
    r = ref.scale(gen.direction(rng), 3e7)
    v = ref.scale(ref.perp(r)[0], gen.logu(rng, 0.1, 1))
    b = burn(rng, 1e-4, max(2e-4, min(3.0, max_dv(cfg, rng.choice([2, 10, 40, 40, 1000])))))
    mon.case("free-space", t, r, v, cfg, b)
    c = craft(mon, rng, t, r, v, False, cfg)
    mon.call("finite_maneuver", c.finite_maneuver, Vector3D(*b))
    t1, r1, v1 = snap(c)
    dur = ref.burn_duration(ref.norm(b), cfg[2], m0, cfg[3])
    u = ref.mv(ref.tr(ref.ric(r, v)), b)
    dv = ref.norm(b)
    n = max(1, ref.step_counts(dur)[-1])
    h = dur / n
    # Simpson's rule on 1/(m0 - md t), step by step: relative error (md h / m)^4 / 120 at most
    tol = 1e-9 * dv + 2 * (cfg[2] * h / (m0 - cfg[2] * dur)) ** 4 * dv / 100 + 2 * ref.MU / 9e14 * dur + math.ulp(t) * DAY * (n + 4) * cfg[2] * cfg[3] * ref.G0 / (m0 - cfg[2] * dur)
    mon.vnear("burn-delta-v", ref.sub(v1, v), u, tol)
    mon.near("ledger", c.total_mass(), m0 * math.exp(-dv / (cfg[3] * ref.G0)), 1e-9 * m0)
