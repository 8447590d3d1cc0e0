"""C12 propagation"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.propagators.inertial import RK4
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("random programs of single steps (sizes 1e-5..7200 s, both signs), maneuvers, replaced states and the perturbation switch in between, target epochs (1 ms..40 d, both directions, exact multiples of 300 s, "
        "the current epoch) and round trips on propagators and spacecraft over bound orbits, perturbations on/off; each operation is compared with a "
        "reference integration of the reference force model; non-trivial when the program is new")
ASSUMPTIONS = ["whole multiples of 300 s may be taken in n or n+1 equal steps (rounding of the day count decides)"]
vec = core.vec
DAY = ref.DAY


def run(mon, rng, tier, worker, workers):
    mon.need("landing", "state", "single-step-epoch", "step-size-kept", "same-epoch", "round-trip", "split", "two-body-kepler", "two-body-energy", "setting-kept", "srp", "state-replaced")
    N = (8000 if tier == "quick" else 24000) // workers
    for _ in range(N):
        mon.run_case(program, mon, rng)
    for _ in range(N // 4):
        mon.run_case(there_and_back, mon, rng)
        mon.run_case(two_body, mon, rng)
    for _ in range(max(2, N // 40)):
        mon.run_case(srp, mon, rng)
        mon.run_case(for_days, mon, rng)


class Craft:
    """the same three operations on a bare propagator or on a spacecraft"""

    def __init__(self, mon, rng, t, r, v, pert, kind):
        s = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
        if not pert:
            s.use_perturbations = False
        self.kind = kind
        if kind == "rk4":
            self.o = mon.call("RK4", RK4, s)
            self.p = lambda: self.o
        else:
            self.o = mon.call("Spacecraft", Spacecraft, s)
            self.p = lambda: self.o.propagator

    def snap(self):
        s = self.p().state
        return s.epoch.value, vec(s.position), vec(s.velocity)


def tolerances(r, v, T, h):
    """position / velocity tolerance after T seconds: accumulated reference-model rounding, mostly first-order nutation"""
    rp = max(6378.0, perigee(r, v))
    atol = 2e-7 * 0.0025 * (ref.MU / rp ** 2) * (6378.0 / rp) ** 2 + 1e-12 * ref.MU / rp ** 2
    n = math.sqrt(ref.MU / rp ** 3)
    g = 1 + n * abs(T)
    k = 1 + abs(T / h) if h else 1
    return atol * T * T * g + 2e-11 * k * g, atol * abs(T) * g + 2e-14 * k * g


def perigee(r, v):
    h = ref.norm(ref.cross(r, v))
    en = ref.norm(v) ** 2 / 2 - ref.MU / ref.norm(r)
    e = math.sqrt(max(0.0, 1 + 2 * en * h * h / ref.MU ** 2))
    return h * h / ref.MU / (1 + e)


def match(mon, kind, got, options, tols):
    """the observed state equals one of the admissible reference states"""
    g = got
    best = min(options, key=lambda o: ref.norm(ref.sub(g[1], o[1])))
    mon.vnear(kind, g[1], best[1], tols[0])
    mon.vnear(kind, g[2], best[2], tols[1])


def ulps(t, k):
    return k * math.ulp(abs(t) + 1)


def do_step(mon, c, size, pert):
    t0, r0, v0 = c.snap()
    c.p().step_size = size
    mon.call("step", c.o.step)
    t1, r1, v1 = c.snap()
    mon.near("single-step-epoch", t1, t0 + size / DAY, ulps(t0, 4))
    mon.equal("step-size-kept", c.p().step_size, size)
    match(mon, "state", (t1, r1, v1), [ref.rk4_step(t0, r0, v0, size, pert)], tolerances(r0, v0, size, size))
    mon.check("setting-kept", c.p().state.use_perturbations is pert, "use_perturbations changed by a step")


def do_epoch(mon, c, target, pert):
    t0, r0, v0 = c.snap()
    size = c.p().step_size
    e = Epoch(target)
    mon.call("step_to_epoch", c.o.step_to_epoch, e)
    t1, r1, v1 = c.snap()
    mon.equal("step-size-kept", c.p().step_size, size)
    mon.check("setting-kept", c.p().state.use_perturbations is pert and e.value == target, "use_perturbations or the target epoch changed")
    if target == t0:
        mon.check("same-epoch", (t1, r1, v1) == (t0, r0, v0), "state changed: %r -> %r" % ((t0, r0, v0), (t1, r1, v1)))
        return
    dt = (target - t0) * DAY
    ns = ref.step_counts(dt)
    mon.near("landing", t1, target, ulps(t0, 2 * ns[-1] + 4))
    opts = [ref.propagate(t0, r0, v0, target, pert, n) for n in ns if n]
    match(mon, "state", (t1, r1, v1), opts, tolerances(r0, v0, dt, dt / ns[-1]))


def duration(rng, hi):
    k = rng.randrange(8)
    if k == 0:
        return 300.0 * rng.randint(1, 12)
    if k == 1:
        return 300.0 * rng.randint(1, 4) + rng.choice([-1, 1]) * gen.logu(rng, 1e-3, 10)
    if k == 2:
        return gen.logu(rng, 5e-6, 300)
    if k == 3:
        return gen.logu(rng, 300, hi)
    return gen.logu(rng, 1, 4000)


def program(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    pert = rng.random() < 0.7
    a = gen.tame_orbit(rng, 0.6)
    r, v = ref.elements_to_rv(*a)
    kind = rng.choice(["rk4", "craft"])
    ops = []
    for _ in range(gen.length(rng, 2, 6)):
        k = rng.randrange(6)
        if rng.random() < 0.14:
            ops.append(rng.choice([("toggle", 0.0), ("replace", (rng.random(), ref.elements_to_rv(*gen.tame_orbit(rng, 0.6)), rng.choice([0.0, 0.0, rng.uniform(-400, 400)])))]))
        elif rng.random() < 0.04:
            # single steps longer than the automatic ones, as long as the orbit is high enough to integrate
            ops.append(("step", rng.choice([-1, 1]) * gen.logu(rng, 900, 7200)))
        elif k < 2:
            ops.append(("step", rng.choice([-1, 1]) * rng.choice([gen.logu(rng, 0.01, 900), gen.logu(rng, 1e-5, 1e-2) if rng.random() < 0.4 else 120.0, 300, 60.0, 300.0])))
        elif k < 5:
            ops.append(("to", rng.choice([-1, 1, 1]) * duration(rng, 86400 if rng.random() < 0.1 else 20000)))
        elif kind == "craft" and rng.random() < 0.6:
            ops.append((rng.choice(["impulse", "burn"]), ref.scale(gen.direction(rng), gen.logu(rng, 1e-6, 3e-3))))
        else:
            ops.append(("same", 0.0))
    if rng.random() < 0.3:
        ops.insert(0, ("default", 0.0))
    mon.case("program", t, a, pert, kind, ops)
    c = Craft(mon, rng, t, r, v, pert, kind)
    mon.check("setting-kept", c.p().state.use_perturbations is pert and c.snap() == (t, r, v), "starting state not taken over")
    last = t
    for op, x in ops:
        back, last = last, c.snap()[0]
        if op == "default":
            mon.equal("step-size-kept", c.p().step_size, 300)
            do_step(mon, c, c.p().step_size, pert)
        elif op == "step":
            lim = 0.4 * math.sqrt(max(6378.0, perigee(*c.snap()[1:])) ** 3 / ref.MU)
            do_step(mon, c, x if abs(x) <= 900 else math.copysign(min(abs(x), max(lim, 900.0)), x), pert)
        elif op == "toggle":
            pert = not pert
            c.p().state.use_perturbations = pert
        elif op == "replace":
            # the state of a propagator is an attribute: whatever is put there is what is propagated, from its own epoch, with the configured step
            t0, r0, v0 = c.snap()
            if x[0] < 0.25:
                # taken back to where the last operation started, on another path
                s = GCRF(Epoch(back), Vector3D(*x[1][0]), Vector3D(*x[1][1]))
            elif x[0] < 0.5:
                s = GCRF(Epoch(t0), Vector3D(*r0), Vector3D(*ref.add(v0, ref.scale(gen.direction(rng), 0.05))))
            elif x[0] < 0.7:
                s = GCRF(Epoch(t0), Vector3D(*x[1][0]), Vector3D(*x[1][1]))
            else:
                s = GCRF(Epoch(t0 + x[2]), Vector3D(*r0), Vector3D(*v0))
            s.use_perturbations = pert
            c.p().state = s
            mon.obs["state-replaced"] += 1
        elif op in ("impulse", "burn"):
            size = c.p().step_size
            mon.call(op, c.o.impulsive_maneuver if op == "impulse" else c.o.finite_maneuver, Vector3D(*x))
            mon.check("setting-kept", c.p().state.use_perturbations is pert, "use_perturbations changed by a maneuver")
            mon.equal("step-size-kept", c.p().step_size, size)
        else:
            do_epoch(mon, c, c.snap()[0] + x / DAY, pert)
        if rng.random() < 0.2:
            # a propagator started from a copy of the state carries on identically
            s = c.p().state.copy()
            mon.check("setting-kept", s.use_perturbations is pert, "copy lost use_perturbations")


def for_days(mon, rng):
    """hundreds to thousands of steps in one call, on orbits high enough for the comparison to stay sharp"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    pert = rng.random() < 0.7
    a = gen.tame_orbit(rng, 0.1, 24000, 60000)
    r, v = ref.elements_to_rv(*a)
    T = rng.choice([-1, 1]) * (gen.logu(rng, 0.5, 4 if mon.tier == "quick" else 20) if pert else gen.logu(rng, 3, 40))
    kind = rng.choice(["rk4", "craft"])
    mon.case("for-days", t, a, pert, T, kind)
    c = Craft(mon, rng, t, r, v, pert, kind)
    c.p().step_size = gen.logu(rng, 1, 600)
    do_epoch(mon, c, t + T, pert)
    do_step(mon, c, 300.0, pert)


def there_and_back(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    pert = rng.random() < 0.6
    a = gen.tame_orbit(rng, 0.1, 6800, 45000)
    r, v = ref.elements_to_rv(*a)
    T = rng.choice([-1, 1]) * gen.logu(rng, 10, 60000 if rng.random() < 0.2 else 12000)
    f = rng.uniform(0.05, 0.95)
    mon.case("there-and-back", t, a, pert, T, f)
    c = Craft(mon, rng, t, r, v, pert, rng.choice(["rk4", "craft"]))
    mon.call("there", c.o.step_to_epoch, Epoch(t + T / DAY))
    far = c.snap()
    mon.call("back", c.o.step_to_epoch, Epoch(t))
    # truncation error of a 300 s fourth-order step on this orbit, from the reference against exact two-body motion
    n = ref.step_counts(T)[-1]
    kep = ref.kepler_propagate(r, v, T)
    num = ref.propagate(t, r, v, t + T / DAY, False, n)
    trunc = ref.norm(ref.sub(kep[0], num[1])) + 1e-4
    b = c.snap()
    mon.near("landing", b[0], t, ulps(t, 4 * n + 8))
    mon.vnear("round-trip", b[1], r, 10 * trunc + 3e-3)
    d = Craft(mon, rng, t, r, v, pert, "rk4")
    mon.call("to intermediate", d.o.step_to_epoch, Epoch(t + f * T / DAY))
    mon.call("to end", d.o.step_to_epoch, Epoch(t + T / DAY))
    # the pieces may have longer steps than the whole
    mid = ref.propagate(t, r, v, t + f * T / DAY, False, ref.step_counts(f * T)[-1])
    end = ref.propagate(mid[0], mid[1], mid[2], t + T / DAY, False, ref.step_counts((1 - f) * T)[-1])
    trunc = max(trunc, ref.norm(ref.sub(kep[0], end[1])))
    mon.vnear("split", d.snap()[1], far[1], 10 * trunc + 3e-3)


def two_body(mon, rng):
    t = gen.epoch(rng)
    a = gen.tame_orbit(rng, 0.7)
    r, v = ref.elements_to_rv(*a)
    T = rng.choice([-1, 1]) * gen.logu(rng, 60, 50000)
    mon.case("two-body", t, a, T)
    c = Craft(mon, rng, t, r, v, False, rng.choice(["rk4", "craft"]))
    if c.kind == "craft" and rng.random() < 0.5:
        # the switch also works after construction
        c.o.propagator.state.use_perturbations = False
    mon.call("step_to_epoch", c.o.step_to_epoch, Epoch(t + T / DAY))
    t1, r1, v1 = c.snap()
    dt = (t1 - t) * DAY
    n = ref.step_counts(T)[-1]
    kep = ref.kepler_propagate(r, v, dt)
    num = [ref.propagate(t, r, v, t + T / DAY, False, k) for k in ref.step_counts(T)]
    trunc = max(ref.norm(ref.sub(kep[0], m[1])) for m in num)
    mon.vnear("two-body-kepler", r1, kep[0], 1.05 * trunc + 1e-7 * (1 + abs(T) / 100))

    def energy(r, v):
        return ref.norm(v) ** 2 / 2 - ref.MU / ref.norm(r)

    e0 = energy(r, v)
    de = max(abs(energy(m[1], m[2]) - e0) for m in num)
    mon.near("two-body-energy", energy(r1, v1), e0, 1.05 * de + 1e-11 * abs(e0) * (n + 10))
    h0 = ref.cross(r, v)
    dh = max(ref.norm(ref.sub(ref.cross(m[1], m[2]), h0)) for m in num)
    mon.vnear("two-body-energy", ref.cross(r1, v1), h0, 1.05 * dh + 1e-12 * ref.norm(h0) * (n + 10))


def srp(mon, rng):
    """radiation pressure is part of the force model: the coefficient must act on the propagated state"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    a = gen.tame_orbit(rng, 0.01, 20000, 45000)
    r, v = ref.elements_to_rv(*a)
    k = gen.logu(rng, 1, 100)
    mon.case("srp", t, a, k)
    s = GCRF(Epoch(t), Vector3D(*r), Vector3D(*v))
    s.srp_scalar = k
    p = mon.call("RK4", RK4, s)
    mon.call("step", p.step)
    got = vec(p.state.position), vec(p.state.velocity)
    on = ref.rk4_step(t, r, v, 300.0, True, None, k)
    off = ref.rk4_step(t, r, v, 300.0, True, None, 0.0)
    tol = tolerances(r, v, 300.0, 300.0)
    d_on, d_off = (ref.norm(ref.sub(got[1], x[2])) for x in (on, off))
    if d_on <= tol[1]:
        mon.check("srp", True)
    elif d_off <= tol[1] and ref.norm(ref.sub(got[0], off[1])) <= tol[0]:
        mon.obs["srp"] += 1
        if "srp-coefficient-lost" not in mon.known:
            mon.known.append("srp-coefficient-lost")
    else:
        mon.check("srp", False, "neither with nor without the coefficient: %g, %g km/s off (tolerance %g)" % (d_on, d_off, tol[1]))
