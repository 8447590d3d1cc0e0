"""C25 a mission tells one story: every view the package offers of the same mission agrees with every other"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.elements import ClassicalElements
from openspace.coordinates.positions import LLA, PositionConvert
from openspace.coordinates.states import GCRF, HCW, IJK, StateConvert
from openspace.estimation.iod import Gauss
from openspace.estimation.obs import GroundObservation, SpaceObservation
from openspace.math.functions import EquationsOfMotion as EQ
from openspace.math.linalg import Vector3D, Vector6D
from openspace.planning.maneuvers import Hohmann, VisViva
from openspace.propagators.relative import Hill
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("missions of a chaser, a target and a ground site: random coasts, single steps, impulsive and finite burns and mode changes, audited after every event; planned transfers flown with "
        "spacecraft; orbits determined from looks at flown spacecraft; formations flown with both propagators; whole-period coasts; non-trivial when the mission is new")
ASSUMPTIONS = ["views are compared with one another; the reference model only measures the truncation error of the 300 s integration, which the package documents",
               "first-order nutation limits Earth-fixed round trips to 2e-8 relative"]
vec = core.vec
DAY, MU = ref.DAY, ref.MU
PI, TWO_PI = math.pi, 2 * math.pi


def run(mon, rng, tier, worker, workers):
    mon.need("state-views", "ground-view", "ground-angles-view", "space-view", "space-equals-ground", "mutual-view", "elements-view", "speed-view", "relative-view", "relative-back", "filter-view",
             "geodetic-view", "burn-view", "burn-mass-view", "energy-view", "transfer-arrives", "transfer-circular", "transfer-speed", "period-closes", "elements-predict", "determined-orbit",
             "determined-prediction", "formation-view", "planned-view")
    N = (3200 if tier == "quick" else 16000) // workers
    for _ in range(N):
        mon.run_case(mission, mon, rng)
        mon.run_case(transfer, mon, rng)
        mon.run_case(period, mon, rng)
        mon.run_case(determination, mon, rng)
        mon.run_case(formation, mon, rng)


def craft(mon, t, r, v, pert=True):
    s = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    s.use_perturbations = pert
    return mon.call("Spacecraft", Spacecraft, s)


def snap(c):
    s = c.propagator.state
    return s.epoch.value, vec(s.position), vec(s.velocity)


# ---- the audit: everything the package says about two spacecraft and a site, now ------------------------------
def audit(mon, chaser, target, site):
    for c in (chaser, target):
        t, r, v = snap(c)
        s = mon.call("current_state", c.current_state)
        mon.check("state-views", (s.epoch.value, vec(s.position), vec(s.velocity)) == (t, r, v) and vec(mon.call("position", c.position)) == r and vec(mon.call("velocity", c.velocity)) == v
                  and mon.call("current_epoch", c.current_epoch).value == t, "state, position, velocity and epoch disagree")
        rn, vn = ref.norm(r), ref.norm(v)
        # size of the orbit, in four ways
        a = mon.call("sma", c.sma)
        k = max(1.0, 2 * a / rn)
        el = mon.call("from_ijk", ClassicalElements.from_ijk, IJK(Epoch(t), Vector3D(*r), Vector3D(*v)))
        mon.near("elements-view", el.semimajor_axis, a, 1e-13 * k * a)
        mon.near("speed-view", mon.call("eccentric_velocity", VisViva.eccentric_velocity, rn, a), vn, 1e-13 * k * vn * max(1.0, (MU / rn) / vn ** 2))
        mon.near("speed-view", mon.call("V", EQ.V.from_a_mu_r, a, MU, rn), vn, 1e-13 * k * vn * max(1.0, (MU / rn) / vn ** 2))
        xi = mon.call("XI", EQ.XI.from_mu_r_v, MU, rn, vn)
        mon.near("energy-view", xi, mon.call("XI", EQ.XI.from_mu_a, MU, a), 1e-13 * k * k * MU / a)
        back = mon.call("to_ijk", el.to_ijk)
        mon.vnear("elements-view", back.position, r, 1e-6 * rn)
        mon.vnear("elements-view", back.velocity, v, 1e-6 * vn)
        # where it is over the Earth
        e = Epoch(t)
        fixed = mon.call("to_itrf", PositionConvert.gcrf.to_itrf, Vector3D(*r), e)
        lla = mon.call("to_lla", PositionConvert.itrf.to_lla, fixed)
        mon.vnear("geodetic-view", mon.call("lla.to_itrf", PositionConvert.lla.to_itrf, lla), vec(fixed), 1e-11 * rn)
        # seen from the ground
        o = mon.call("angles_and_range", site.angles_and_range, c)
        f = vec(site.itrf_position)
        d = ref.norm(ref.sub(vec(fixed), f))
        lt = ref.lat_tolerance(f, site.latitude)
        mon.near("ground-view", o.range, d, 1e-12 * (rn + d))
        mon.vnear("ground-view", mon.call("gcrf_position", o.gcrf_position), r, 5e-8 * rn + lt * d)
        ijk = vec(mon.call("to_ijk", PositionConvert.gcrf.to_ijk, Vector3D(*r), e))
        g = vec(mon.call("ijk_position", o.ijk_position))
        mon.vnear("ground-view", g, ijk, 1e-11 * (rn + d) + lt * d)
        w = mon.call("from_angles_and_range", GroundObservation.from_angles_and_range, o.observer_state, o.azimuth, o.elevation, o.range, 0, 0)
        mon.vnear("ground-angles-view", mon.call("ijk_position", w.ijk_position), g, 1e-11 * (rn + d))
        mon.equal("ground-view", o.epoch().value, t)
    # seen from each other
    (t, r, v), (u, q, w) = snap(chaser), snap(target)
    x, y = vec(mon.call("target_vector", chaser.target_vector, target)), vec(mon.call("target_vector", target.target_vector, chaser))
    mon.vnear("mutual-view", x, tuple(-k for k in y), 1e-14 * (ref.norm(q) + ref.norm(r)))
    mon.near("mutual-view", mon.call("range", chaser.range, target), mon.call("range", target.range, chaser), 1e-14 * (ref.norm(q) + ref.norm(r)))
    mon.vnear("mutual-view", x, ref.sub(q, r), 1e-14 * (ref.norm(q) + ref.norm(r)))
    s = mon.call("SpaceObservation", SpaceObservation, chaser.current_state(), Vector3D(*x), 0.0, 0.0)
    mon.near("space-view", s.range, chaser.range(target), 1e-14 * ref.norm(r))
    p = vec(mon.call("ijk_position", s.ijk_position))
    mon.vnear("space-view", p, vec(PositionConvert.gcrf.to_ijk(Vector3D(*q), Epoch(t))), 1e-12 * ref.norm(q))
    if t == u:
        mon.vnear("space-equals-ground", p, g, 1e-11 * (ref.norm(q) + d) + lt * d)
        # and in the Hill frame
        h = mon.call("hill_position", chaser.hill_position, target)
        z = mon.call("to_hcw", StateConvert.gcrf.to_hcw, chaser.current_state(), target.current_state())
        mon.vnear("relative-view", h, vec(z.position), 1e-12 * ref.norm(q))
        mon.near("relative-view", h.x, ref.norm(q) - ref.norm(r), 1e-14 * ref.norm(q) * 4)
        b = mon.call("to_gcrf", StateConvert.hcw.to_gcrf, z, chaser.current_state())
        far = 1 + ref.norm(x) / ref.norm(r)
        c = 1 / max(1e-3, abs(math.cos(vec(h)[2] / ref.norm(r))))
        mon.vnear("relative-back", b.position, q, 1e-13 * ref.norm(q) * far * c * 10)
        mon.vnear("relative-back", b.velocity, w, 1e-13 * ref.norm(w) * far * c * c * 10)
        mon.equal("relative-back", b.epoch.value, t)


def mission(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    el = gen.tame_orbit(rng, 0.5)
    r, v = ref.elements_to_rv(*el)
    q, w = gen.bound_nearby(rng, r, v, rng.choice([0.2, 0.2, 0.01]), rng.choice([20, 500, 3000]))
    pert = rng.random() < 0.5
    lat, lon, alt = math.asin(rng.uniform(-1, 1)), gen.angle(rng), rng.choice([rng.uniform(-0.4, 5), rng.uniform(-100, 10), 0.0])
    n = gen.length(rng, 2, 5, 6)
    log = []
    mon.case("mission", t, el, q, w, pert, lat, lon, alt, rng.random())
    mon.context = ("mission", (t, el, q, w, pert, lat, lon, alt, log))
    chaser, target = craft(mon, t, r, v, pert), craft(mon, t, q, w, pert)
    gen.outfit(rng, chaser)
    gen.outfit(rng, target)
    site = mon.call("GroundSite", GroundSite, LLA(lat, lon, alt))
    mon.vnear("ground-view", site.itrf_position, vec(mon.call("lla.to_itrf", PositionConvert.lla.to_itrf, LLA(lat, lon, alt))), 1e-11)
    here = mon.call("from_itrf_position", GroundSite.from_itrf_position, Vector3D(*vec(site.itrf_position)))
    mon.vnear("ground-view", here.itrf_position, vec(site.itrf_position), 1e-7)
    mon.vnear("ground-view", mon.call("enz_position", here.enz_position, Vector3D(*vec(site.itrf_position))), (0.0, 0.0, 0.0), 1e-7)
    audit(mon, chaser, target, site)
    for _ in range(n):
        c, o = (chaser, target) if rng.random() < 0.5 else (target, chaser)
        op = rng.choice(["coast", "coast", "step", "impulse", "burn", "sun", "earth", "track", "acquire"])
        if op == "coast":
            T = rng.choice([-1, 1, 1]) * (gen.logu(rng, 1, 6000) if rng.random() < 0.97 else gen.logu(rng, 6000, 4e5))
            log.append((c is chaser, op, T))
            e1 = snap(c)[0] + T / DAY
            mon.call(op, c.step_to_epoch, Epoch(e1))
            mon.near("state-views", snap(c)[0], e1, (abs(T) / 300 + 3) * 2 * math.ulp(e1))
        elif op == "step":
            log.append((c is chaser, op))
            mon.call(op, c.step)
        elif op == "impulse":
            b = ref.scale(gen.direction(rng), gen.logu(rng, 1e-5, 0.05))
            log.append((c is chaser, op, b))
            pre = mon.call("current_state", c.current_state)
            m = c.total_mass()
            mon.call(op, c.impulsive_maneuver, Vector3D(*b))
            z = mon.call("to_hcw", StateConvert.gcrf.to_hcw, pre, c.current_state())
            rn, vn = pre.position.magnitude(), pre.velocity.magnitude()
            mon.vnear("burn-view", z.position, (0.0, 0.0, 0.0), 1e-14 * rn * 10)
            mon.vnear("burn-view", z.velocity, b, 1e-14 * vn * 20)
            mon.equal("burn-mass-view", c.total_mass(), m)
        elif op == "burn":
            b = ref.scale(gen.direction(rng), gen.logu(rng, 1e-6, rng.choice([0.01, 0.01, 0.1])))
            log.append((c is chaser, op, b))
            m, e0 = c.total_mass(), snap(c)[0]
            mon.call(op, c.finite_maneuver, Vector3D(*b))
            used = m - c.total_mass()
            mon.near("burn-mass-view", c.isp * ref.G0 * math.log(m / c.total_mass()), ref.norm(b), 1e-6 * ref.norm(b) + 1e-12)
            mon.near("burn-mass-view", (snap(c)[0] - e0) * DAY, used / c.m_dot, 1e-9 * used / c.m_dot + 40 * math.ulp(e0) * DAY + 1e-9)
        elif op == "sun":
            log.append((c is chaser, op))
            mon.call(op, c.track_sun)
        elif op == "earth":
            log.append((c is chaser, op))
            mon.call(op, c.track_lvlh)
        elif op == "track":
            log.append((c is chaser, op))
            if o.steering != "target":
                mon.call(op, c.track_state, o)
        elif o.steering != "target":
            lag = rng.choice([0, 0, 1, -1]) * gen.logu(rng, 1, rng.choice([3e3, 3e3, 3e3, 2e5]))
            log.append((c is chaser, op, lag))
            if lag:
                mon.call("apart", o.step_to_epoch, Epoch(snap(c)[0] + lag / DAY))
            mon.call(op, c.acquire, o)
            mon.near("filter-view", snap(o)[0], snap(c)[0], (abs(lag) / 300 + 3) * 2 * math.ulp(snap(c)[0]))
            h = mon.call("hill_position", c.hill_position, o)
            k = 1e-12 * ref.norm(snap(c)[1])
            mon.vnear("filter-view", c.filter.propagator.state.position, vec(h), k)
            mon.vnear("filter-view", (c.filter.x00.x, c.filter.x00.y, c.filter.x00.z), vec(h), k)
            mon.near("filter-view", c.filter.propagator.sma / c.sma(), 1.0, 1e-12)
            mon.equal("filter-view", c.filter.epoch.value, snap(c)[0])
        # the other one follows
        mon.call("sync", o.step_to_epoch, Epoch(snap(c)[0]))
        if snap(o)[0] != snap(c)[0]:
            mon.obs["resynchronised"] += 1
            o.propagator.state.epoch = Epoch(snap(c)[0])
        mon.check("state-views", chaser.propagator.state.use_perturbations is pert and target.propagator.state.use_perturbations is pert, "perturbation setting changed")
        audit(mon, chaser, target, site)


# ---- plans flown ------------------------------------------------------------------------------------------------
def coast(mon, c, T):
    """two-body coast of the spacecraft by T seconds; returns the size of the integration error (reference RK4 against Kepler)"""
    t, r, v = snap(c)
    goal = t + T / DAY
    T = (goal - t) * DAY
    mon.call("step_to_epoch", c.step_to_epoch, Epoch(goal))
    p, w = ref.kepler_propagate(r, v, T)
    err = (0.0, 0.0)
    for n in ref.step_counts(T):
        if n:
            _, a, b = ref.propagate(t, r, v, goal, False, n)
            err = max(err[0], ref.norm(ref.sub(a, p))), max(err[1], ref.norm(ref.sub(b, w)))
    n = math.sqrt(MU / ref.norm(r) ** 3)
    return err[0] + 1e-9 + 1e-14 * abs(T) * ref.norm(r) * n * 100, err[1] + 1e-12, T


def transfer(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    r1, r2 = gen.logu(rng, 8000, 60000), gen.logu(rng, 8000, 60000)
    if rng.random() < 0.2:
        r2 = r1 + rng.choice([-1, 1]) * gen.logu(rng, 0.01, 100)
    i, raan, u = gen.incl(rng), gen.angle(rng), gen.angle(rng)
    r, v = ref.elements_to_rv(r1, 0.0, i, raan, 0.0, u)
    mon.case("transfer", t, r1, r2, i, raan, u)
    plan = mon.call("Hohmann", Hohmann, r1, r2)
    a = (r1 + r2) / 2
    mon.near("planned-view", plan.initial_velocity, ref.norm(v), 1e-13 * plan.initial_velocity)
    mon.near("planned-view", plan.transfer_velocity_1, mon.call("V", EQ.V.from_a_mu_r, a, MU, r1), 1e-13 * plan.initial_velocity)
    mon.near("planned-view", plan.transfer_velocity_2, mon.call("V", EQ.V.from_a_mu_r, a, MU, r2), 1e-12 * plan.initial_velocity)
    mon.near("planned-view", plan.final_velocity, mon.call("V", EQ.V.from_a_mu_r, r2, MU, r2), 1e-13 * plan.initial_velocity)
    c = craft(mon, t, r, v, False)
    mon.call("first burn", c.impulsive_maneuver, Vector3D(0, plan.delta_v_1, 0))
    mon.near("transfer-speed", ref.norm(snap(c)[2]), plan.transfer_velocity_1, 1e-12)
    mon.near("transfer-circular", mon.call("sma", c.sma), a, 1e-11 * a)
    tau = mon.call("TAU", EQ.TAU.from_a_mu, c.sma(), MU)
    ep, ev, _ = coast(mon, c, tau / 2)
    _, p, w = snap(c)
    ep, ev = 2 * ep + 1e-9 * r2, 2 * ev + 1e-9
    mon.vnear("transfer-arrives", p, ref.scale(r, -r2 / r1), ep + 1e-4 * max(r1, r2) / 6e4 + ref.norm(w) * DAY * 4 * math.ulp(t))
    mon.near("transfer-speed", ref.norm(w), plan.transfer_velocity_2, ev + ep * MU / (min(r1, r2) ** 2 * min(ref.norm(w), ref.norm(v))) + 1e-8)
    mon.call("second burn", c.impulsive_maneuver, Vector3D(0, plan.delta_v_2, 0))
    slack = 2 * ev + ep * MU / (min(r1, r2) ** 2 * min(ref.norm(w), ref.norm(v))) + 1e-8
    mon.near("transfer-speed", ref.norm(snap(c)[2]), plan.final_velocity, slack)
    el = mon.call("from_ijk", ClassicalElements.from_ijk, IJK(Epoch(t), Vector3D(*snap(c)[1]), Vector3D(*snap(c)[2])))
    bound = 4 * (slack / plan.final_velocity + ep / r2) + 1e-7
    mon.near("transfer-circular", el.semimajor_axis / r2, 1.0, bound)
    mon.near("transfer-circular", el.eccentricity, 0.0, bound)
    mon.near("transfer-circular", ref.angle(ref.cross(snap(c)[1], snap(c)[2]), ref.cross(r, v)), 0.0, 1e-9 + bound)


def period(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    el = gen.tame_orbit(rng, 0.4, 7000.0)
    r, v = ref.elements_to_rv(*el)
    f = rng.choice([1.0, 1.0, -1.0, rng.uniform(-1.5, 1.5)])
    mon.case("period", t, el, f)
    c = craft(mon, t, r, v, False)
    a = mon.call("sma", c.sma)
    tau = mon.call("TAU", EQ.TAU.from_a_mu, a, MU)
    coes = mon.call("from_ijk", ClassicalElements.from_ijk, IJK(Epoch(t), Vector3D(*r), Vector3D(*v)))
    ep, ev, T = coast(mon, c, f * tau)
    u, p, w = snap(c)
    # a whole period is only known to the resolution of an epoch
    clock = ref.norm(v) * 4 * math.ulp(t) * DAY + 1e-6 * el[0] / 6e4
    if abs(f) == 1:
        mon.vnear("period-closes", p, r, 2 * ep + 1e-9 * ref.norm(r) + 3 * clock)
        mon.vnear("period-closes", w, v, 2 * ev + 1e-9 * ref.norm(v) + 3 * clock * MU / ref.norm(r) ** 3)
    # the elements know where it will be: only the mean anomaly moves, at the mean motion
    n = mon.call("N", EQ.N.from_a_mu, a, MU)
    mon.near("elements-predict", n * tau, TWO_PI, 1e-14 * 10)
    later = ClassicalElements(Epoch(u), coes.semimajor_axis, coes.eccentricity, coes.inclination, coes.raan, coes.argument_of_perigee, coes.mean_anomaly + n * T)
    s = mon.call("to_ijk", later.to_ijk)
    e = el[1]
    mon.vnear("elements-predict", s.position, p, 2 * ep + (2e-7 if e < 1e-3 else 1e-9 / e) * el[0] + 3 * clock)
    mon.vnear("elements-predict", s.velocity, w, 2 * ev + (2e-7 if e < 1e-3 else 1e-9 / e) * math.sqrt(MU / el[0]) * 4 + 3 * clock * MU / 6378.0 ** 3)
    mon.equal("elements-predict", s.epoch.value, u)


def determination(mon, rng):
    """an orbit determined from looks at a flown spacecraft is the flown orbit"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    el = gen.tame_orbit(rng, 0.3, 9000.0)
    r, v = ref.elements_to_rv(*el)
    tau = TWO_PI * math.sqrt(el[0] ** 3 / MU)
    f = rng.uniform(0.08, 0.4)
    lat, lon = math.asin(rng.uniform(-1, 1)), gen.angle(rng)
    ground = rng.random() < 0.5
    mon.case("determination", t, el, f, lat, lon, ground)
    c = craft(mon, t, r, v, False)
    site = mon.call("GroundSite", GroundSite, LLA(lat, lon, 0.1))
    # the observer of space looks stands still: only its position and epoch matter
    o = (r[1], -r[2], r[0] * 0.5)

    def look():
        if ground:
            return mon.call("angles_and_range", site.angles_and_range, c)
        u, p, _ = snap(c)
        return SpaceObservation(GCRF(Epoch(u), Vector3D(*o), Vector3D(0.0, 7.0, 0.0)), Vector3D(*ref.sub(p, o)), 0.0, 0.0)

    one = look()
    v1 = snap(c)
    ep, ev, _ = coast(mon, c, f * tau)
    two = look()
    v2 = snap(c)
    arc = ref.angle(v1[1], v2[1])
    if arc > math.radians(165) or ref.dot(ref.cross(v1[1], v2[1]), ref.cross(r, v)) < 0:
        return
    got = mon.call("coes_from_positions", Gauss.coes_from_positions, one, two)
    # epochs accumulate rounding over the steps of a coast
    clock = ref.norm(v) * math.ulp(t) * DAY * (abs(f * tau) / 150 + 10)
    k = 20 * ((ep + clock) / ref.norm(r) + 2e-7) / math.sin(arc) ** 2
    mon.equal("determined-orbit", got.epoch.value, v1[0])
    mon.near("determined-orbit", got.semimajor_axis / c.sma(), 1.0, k)
    mon.near("determined-orbit", got.eccentricity, el[1], k)
    # the plane, in the equatorial frame of the first look
    e = Epoch(v1[0])
    w = vec(mon.call("to_ijk", PositionConvert.gcrf.to_ijk, Vector3D(*ref.unit(ref.cross(r, v))), e))
    s = mon.call("to_ijk", got.to_ijk)
    mon.near("determined-orbit", ref.angle(ref.cross(vec(s.position), vec(s.velocity)), w), 0.0, k)
    # and it predicts a third look
    T = rng.uniform(-0.5, 0.5) * tau
    ep3, _, _ = coast(mon, c, T)
    third = vec(mon.call("ijk_position", look().ijk_position))
    n = mon.call("N", EQ.N.from_a_mu, got.semimajor_axis, MU)
    T = (snap(c)[0] - v1[0]) * DAY
    got.mean_anomaly += n * T
    p = mon.call("to_ijk", got.to_ijk).position
    mon.vnear("determined-prediction", p, third, (10 * k + 4 * (ep + ep3) / ref.norm(r)) * el[0] * 3)


def formation(mon, rng):
    """relative motion by Hill's equations and by differencing two propagated spacecraft"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    a = rng.uniform(20000, 45000)
    r, v = ref.elements_to_rv(a, 0.0, gen.incl(rng), gen.angle(rng), 0.0, gen.angle(rng))
    n = math.sqrt(MU / a ** 3)
    d = gen.logu(rng, 0.05, 20)
    x = tuple(rng.uniform(-d, d) for _ in range(3)) + tuple(rng.uniform(-d, d) * n for _ in range(3))
    T = rng.uniform(-1, 1) * TWO_PI / n
    mon.case("formation", t, r, v, x, T)
    target = craft(mon, t, r, v, False)
    rel = mon.call("from_state_vector", HCW.from_state_vector, Vector6D(*x))
    chaser = mon.call("Spacecraft", Spacecraft, off(mon, rel, target))
    mon.check("state-views", chaser.propagator.state.use_perturbations is False and snap(chaser)[0] == t, "state not taken over")
    hill = mon.call("Hill", Hill, rel, target.sma())
    _, _, T = coast(mon, target, T)
    coast(mon, chaser, T)
    mon.equal("formation-view", snap(chaser)[0], snap(target)[0])
    mon.call("step_by_seconds", hill.step_by_seconds, T)
    z = mon.call("to_hcw", StateConvert.gcrf.to_hcw, target.current_state(), chaser.current_state())
    # second order in the separation, growing with the drift, plus the part of the integration error the two do not share
    g = (1 + n * abs(T)) ** 2
    tol = 80 * g * d * d / a + 1e-5 * d * g + 1e-7
    mon.vnear("formation-view", z.position, vec(hill.state.position), tol)
    mon.vnear("formation-view", z.velocity, vec(hill.state.velocity), tol * n)


def off(mon, rel, target):
    s = mon.call("to_gcrf", StateConvert.hcw.to_gcrf, rel, target.current_state())
    s.use_perturbations = False
    return s
