"""C20 attitude, steering modes and slews: a model-based state machine runs beside the real spacecraft"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("random programs of 4..16 operations (mode commands, re-targeting, acquisition, single steps, target epochs forward, backward and around the end of a slew, impulsive and "
        "finite burns, attitude updates) over fleets of 2..4 spacecraft incl. chains, mutual tracking and rings and targets left at other epochs; a model of mode, target and slew timer is "
        "checked after every operation; non-trivial when the program is new")
ASSUMPTIONS = ["axes are directions: their lengths are not compared", "a spacecraft is not its own target"]
vec = core.vec
DAY = ref.DAY
RATE = math.radians(0.5) * DAY


def run(mon, rng, tier, worker, workers):
    mon.need("initial", "points-earth", "panels", "points-anti-sun", "points-target", "target-synchronised", "triad", "mode", "tracked", "slew-start", "slew-duration", "slew-clear", "slew-hold",
             "no-new-slew", "others-unchanged", "retarget", "slew-boundary", "looks-steer-nothing")
    N = (19200 if tier == "quick" else 80000) // workers
    for _ in range(N):
        mon.run_case(program, mon, rng)


class Model:
    def __init__(self):
        self.mode, self.target, self.slewing, self.stop = "lvlh", None, False, None


class Fleet:
    def __init__(self, mon, rng, n, t):
        self.mon, self.rng = mon, rng
        r, v = gen.rv(rng)
        self.start = []
        self.c = []
        for i in range(n):
            p, q = (r, v) if i == 0 else (gen.bound_nearby(rng, r, v, rng.choice([0.5, 0.5, 0.02]), 3000) if rng.random() < 0.7 else gen.rv(rng))
            tt = t if rng.random() < 0.8 else t + rng.uniform(-0.02, 0.02)
            self.start.append((tt, p, q))
            self.c.append(mon.call("Spacecraft", Spacecraft, GCRF(Epoch(tt), Vector3D(*p), Vector3D(*q))))
            gen.outfit(rng, self.c[-1])
        self.m = [Model() for _ in range(n)]

    def epoch(self, i):
        return self.c[i].propagator.state.epoch.value

    def pos(self, i):
        return vec(self.c[i].propagator.state.position)

    def axes(self, i):
        c = self.c[i]
        return vec(c.body_x), vec(c.body_y), vec(c.body_z)

    def full(self, i):
        c = self.c[i]
        s = c.propagator.state
        return (s.epoch.value, vec(s.position), vec(s.velocity), self.axes(i), c.steering, c.slewing, c.slew_stop.value if self.m[i].stop is not None else None)

    def reach(self, i):
        """spacecraft brought along when i is updated: its target, the target's target, ..."""
        out = []
        while self.m[i].mode == "target" and self.m[i].target not in out:
            i = self.m[i].target
            out.append(i)
        return out

    def mutual(self, i):
        return i in self.reach(i)


MODES = {"lvlh": 0, "solar": 1, "target": 2}


def want_axis(F, i):
    mode = F.m[i].mode
    p = F.pos(i)
    if mode == "lvlh":
        return ref.scale(p, -1), "points-earth"
    if mode == "solar":
        return ref.sub(p, ref.sun(F.epoch(i))), "points-anti-sun"
    return ref.sub(F.pos(F.m[i].target), p), "points-target"


def check_attitude(mon, F, i):
    c = F.c[i]
    want, kind = want_axis(F, i)
    x, y, z = F.axes(i)
    # positions are known to 1e-11 km (and to the time resolution of the epoch when two spacecraft chase each other's epoch)
    tol = 1e-10 + 1e-10 / ref.norm(want) + (1e-4 / ref.norm(want) if F.mutual(i) or kind == "points-target" and F.epoch(i) != F.epoch(F.m[i].target) else 0)
    mon.near(kind, ref.angle(z, want), 0.0, tol)
    if kind == "points-target":
        # other members of a tracking chain may have been moved on since; only the target itself is judged
        mon.near("target-synchronised", F.epoch(F.m[i].target), F.epoch(i), 200 * math.ulp(F.epoch(i)))
    if kind == "points-earth":
        n = ref.cross(F.pos(i), vec(c.propagator.state.velocity))
        if mon.check("panels", ref.norm(y) > 0, "zero-length axis"):
            mon.near("panels", ref.angle(y, n), 0.0, 1e-10)
    a = [ref.norm(k) for k in (x, y, z)]
    if kind == "points-target":
        s = math.sin(ref.angle(z, ref.sub(ref.sun(F.epoch(i)), F.pos(i))))
        if s < 1e-6:
            return
        if ref.norm(y) > 0:
            mon.near("panels", ref.angle(y, ref.cross(z, ref.sub(ref.sun(F.epoch(i)), F.pos(i)))), 0.0, 1e-9 / s)
    else:
        s = 0.1
    e = 1e-12 / s
    if mon.check("triad", min(a) > 0, "zero-length axis"):
        for p, q, n in ((x, y, a[0] * a[1]), (y, z, a[1] * a[2]), (z, x, a[2] * a[0])):
            mon.near("triad", ref.dot(p, q) / n, 0.0, e)
        mon.near("triad", ref.dot(ref.cross(x, y), z) / (a[0] * a[1] * a[2]), 1.0, e)
    mon.equal("mode", c.steering, Spacecraft.STEERING_MODES[MODES[F.m[i].mode]])
    if F.m[i].mode == "target":
        mon.check("tracked", c.tracked_target is F.c[F.m[i].target], "tracked target is another spacecraft")


def clear(mon, F, i, judge=True):
    """the slew flag after an update of i"""
    m, c = F.m[i], F.c[i]
    if not m.slewing:
        mon.check("no-new-slew", c.slewing is False, "slewing without a mode change")
        return
    gap = F.epoch(i) - m.stop
    mon.obs["slew-boundary"] += int(abs(gap) < 1e-9)
    if not judge:
        m.slewing = c.slewing
        return
    if gap > 0:
        m.slewing = False
        mon.check("slew-clear", c.slewing is False, "still slewing %g s after the end of the slew" % (gap * DAY))
    else:
        mon.check("slew-hold", c.slewing is True, "slew flag dropped %g s before the end of the slew" % (-gap * DAY))
    mon.near("slew-duration", c.slew_stop.value, m.stop, 0.0)


def command(mon, F, i, mode, target, call):
    m, c = F.m[i], F.c[i]
    old = vec(c.body_z)
    changed = m.mode != mode
    mon.obs["retarget"] += int(not changed and mode == "target" and m.target != target)
    m.mode = mode
    if mode == "target":
        m.target = target
    before = c.slew_stop.value if m.stop is not None else None
    call()
    t = F.epoch(i)
    if changed:
        want, kind = want_axis(F, i)
        ang = ref.angle(old, want)
        mon.check("slew-start", c.slewing is True, "no slew on a mode change of %g rad" % ang)
        rate = F.rate[i]
        stop = t + ang / rate
        # the package's arc cosine knows an angle to a few 1e-8 rad near 0 and pi; a chased target to the epoch resolution
        slack = 1e-7 + (1e-4 / ref.norm(want) if kind == "points-target" else 0.0)
        mon.near("slew-duration", c.slew_stop.value, stop, slack / rate + 8 * math.ulp(t))
        m.slewing, m.stop = True, c.slew_stop.value
        # the command itself ends with an update; a slew of zero duration may be over already
        if F.mutual(i):
            m.slewing = c.slewing
    else:
        if before is not None:
            mon.equal("no-new-slew", c.slew_stop.value, before)
        clear(mon, F, i)


OPS = ["lvlh", "sun", "state", "state", "step", "step", "to", "to", "slewend", "impulse", "burn", "update", "acquire", "stray", "look"]


def program(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    n = rng.choice([2, 2, 3, 4])
    log = []
    mon.case("program", t, n, rng.random())
    F = Fleet(mon, rng, n, t)
    mon.context = ("program", (F.start, log))
    F.rate = [RATE] * n
    for i in range(n):
        if rng.random() < 0.15:  # a vehicle configured to slew faster or slower than the default
            k = gen.logu(rng, 0.2, 5)
            F.c[i].slew_scalar /= k
            F.rate[i] *= k
        mon.check("initial", F.c[i].slewing is False and F.c[i].steering == "lvlh", "a new spacecraft must be Earth-pointing and not slewing")
        check_attitude(mon, F, i)
    for _ in range(gen.length(rng, 4, 16, 6, 0.04)):
        i = rng.randrange(n)
        c, m = F.c[i], F.m[i]
        op = rng.choice(OPS)
        j = rng.choice([k for k in range(n) if k != i])
        if op == "slewend" and not (m.stop and m.slewing and abs(m.stop - F.epoch(i)) < 0.02):
            op = "update"
        before = {k: F.full(k) for k in range(n)}
        epochs = {k: F.epoch(k) for k in range(n)}
        arg = None
        if op == "lvlh":
            log.append((i, op))
            command(mon, F, i, "lvlh", None, lambda: mon.call("track_lvlh", c.track_lvlh))
        elif op == "sun":
            log.append((i, op))
            command(mon, F, i, "solar", None, lambda: mon.call("track_sun", c.track_sun))
        elif op == "state":
            log.append((i, op, j))
            command(mon, F, i, "target", j, lambda: mon.call("track_state", c.track_state, F.c[j]))
        elif op == "acquire":
            log.append((i, op, j))
            command(mon, F, i, "target", j, lambda: mon.call("acquire", c.acquire, F.c[j]))
        elif op == "look":
            # looking at, detecting or measuring another spacecraft steers nothing
            what = rng.choice(["observe_wfov", "observe_nfov", "process_wfov", "process_nfov", "detect", "range", "sun_angle", "hill_position"])
            if what.startswith("process") and not hasattr(c, "filter"):
                what = "detect"
            log.append((i, what, j))
            was = F.full(i)
            mon.call(what, getattr(c, what), F.c[j])
            mon.obs["looks-steer-nothing"] += 1
            mon.check("looks-steer-nothing", F.full(i) == was, "%s changed the attitude, mode or slew: %r -> %r" % (what, was, F.full(i)))
            for k in range(n):
                mon.check("others-unchanged", F.full(k) == before[k], "%s of spacecraft %d changed spacecraft %d" % (what, i, k))
            continue
        else:
            if op == "step":
                arg = rng.choice([-1, 1, 1]) * rng.choice([300, gen.logu(rng, 0.1, 300)])
                c.propagator.step_size = arg
                log.append((i, op, arg))
                mon.call("step", c.step)
                c.propagator.step_size = 300
            elif op == "to":
                arg = F.epoch(i) + rng.choice([0.0, 1, 1, -1]) * gen.logu(rng, rng.choice([1e-6, 1e-6, 1e-10]), 0.03)
                log.append((i, op, arg))
                mon.call("step_to_epoch", c.step_to_epoch, Epoch(arg))
            elif op == "slewend":
                arg = m.stop + rng.choice([0, -1, 1]) * rng.choice([gen.logu(rng, 1e-7, 1e-4), 10 * math.ulp(m.stop)])
                log.append((i, op, arg))
                mon.call("step_to_epoch", c.step_to_epoch, Epoch(arg))
            elif op == "impulse":
                arg = ref.scale(gen.direction(rng), gen.logu(rng, 1e-5, 0.05))
                log.append((i, op, arg))
                mon.call("impulsive_maneuver", c.impulsive_maneuver, Vector3D(*arg))
            elif op == "burn":
                arg = ref.scale(gen.direction(rng), gen.logu(rng, 1e-6, 0.004))
                log.append((i, op, arg))
                mon.call("finite_maneuver", c.finite_maneuver, Vector3D(*arg))
            elif op == "update":
                log.append((i, op))
                mon.call("update_attitude", c.update_attitude)
            else:
                # a target moved behind everybody's back, through its propagator; its own attitude follows at its next update
                arg = F.epoch(i) + rng.choice([1, -1]) * rng.choice([gen.logu(rng, 1e-5, 0.01), gen.logu(rng, 1e-10, 1e-5)])
                log.append((i, op, arg))
                mon.call("propagator.step_to_epoch", c.propagator.step_to_epoch, Epoch(arg))
                mon.call("update_attitude", c.update_attitude)
            if m.stop is not None and not m.slewing:
                mon.equal("no-new-slew", c.slew_stop.value, m.stop)
            clear(mon, F, i, not F.mutual(i))
        along = F.reach(i)
        check_attitude(mon, F, i)
        for k in range(n):
            if k == i:
                continue
            if k in along:
                if F.epoch(k) != epochs[k]:
                    # it was stepped, so it was updated
                    clear(mon, F, k, not F.mutual(k))
                    check_attitude(mon, F, k)
            else:
                mon.check("others-unchanged", F.full(k) == before[k], "operation on spacecraft %d changed spacecraft %d: %r -> %r" % (i, k, before[k], F.full(k)))
