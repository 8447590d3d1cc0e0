"""C17 relative-navigation Kalman filter"""
import math
import random

import numpy as np
from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF, HCW
from openspace.estimation.filtering import RelativeKalman
from openspace.estimation.obs import SpaceObservation
from openspace.math.linalg import Vector3D
from openspace.propagators.relative import Hill
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("observation histories of 3..150 looks (irregular, repeated, simultaneous and out-of-order times, gaps up to five days either way; ranges 0.1..4000 km; range errors 1e-6..10 km, angle errors "
        "1e-8..1e-2 rad; observers on circular and eccentric orbits; up to four interleaved filters), each processed step compared with a reference Kalman filter "
        "started from the observed previous estimate; non-trivial when the history is new")
ASSUMPTIONS = ["measurement noise is the diagonal of squared Hill-frame components of the one-sigma displaced look, as the package defines it"]
vec, mat = core.vec, core.mat
DAY = ref.DAY
P0 = np.diag([0.5] * 3 + [5e-5] * 3)
Q = np.eye(6) * 1e-16
H = np.hstack([np.eye(3), np.zeros((3, 3))])


def run(mon, rng, tier, worker, workers):
    mon.need("initial", "estimate", "covariance", "epoch", "propagator", "symmetric", "positive", "shrinks", "observation-kept", "converges", "independent", "defaults", "craft")
    N = (6400 if tier == "quick" else 24000) // workers
    for _ in range(N):
        mon.run_case(history, mon, rng)
    for _ in range(N // 4):
        mon.run_case(converge, mon, rng)
        mon.run_case(craft, mon, rng)


def phi(n, t):
    cols = [ref.hcw_propagate(tuple(float(i == j) for i in range(6)), n, t) for j in range(6)]
    return np.array(cols).T


def measurement(o):
    """o = (epoch, observer position, velocity, direction, range error, angle error): Hill-frame look and one-sigma components"""
    _, r, v, d, re_, ae = o
    z = ref.to_hcw(r, v, ref.add(r, d), v)[0]
    rng_ = ref.norm(d)
    ra, dec = math.atan2(d[1], d[0]), math.atan2(d[2], math.hypot(d[0], d[1]))
    R, A, D = rng_ + re_, ra + ae, dec + ae
    err = ref.sub((R * math.cos(D) * math.cos(A), R * math.cos(D) * math.sin(A), R * math.sin(D)), d)
    e = ref.to_hcw(r, v, ref.add(r, err), v)[0]
    return np.array(z), np.array(e)


def kalman(F, x, P, z, e, jitter=None):
    xp = F @ x
    Pp = F @ P @ F.T + Q
    if jitter is not None:
        s = np.sqrt(np.abs(np.diag(Pp)))
        A = np.abs(F)
        Pp = Pp * (1 + 4e-15 * jitter) + 2e-15 * jitter * (np.outer(s, s) + A @ np.abs(P) @ A.T)
        xp = xp + 2e-15 * jitter[1] * (A @ np.abs(x))
    R = np.diag(e * e)
    S = H @ Pp @ H.T + R
    K = np.linalg.solve(S.T, (Pp @ H.T).T).T
    J = np.eye(6) - K @ H
    return xp + K @ (z - H @ xp), J @ Pp @ J.T + K @ R @ K.T, xp, Pp, K


NOISE = np.random.default_rng(12345)
JIT = []
for _ in range(8):
    _m = NOISE.choice([-1.0, 1.0], (6, 6))
    JIT.append((np.triu(_m) + np.triu(_m, 1).T, NOISE.choice([-1.0, 1.0], 3), NOISE.choice([-1.0, 1.0], 3)))


class Ref:
    """reference filter; after process() also knows how far rounding alone can move its answer (tx, tP)"""

    def __init__(self, t, x, n):
        self.t, self.x, self.P, self.n = t, np.array(x), P0.copy(), n

    def process(self, o):
        z, e = measurement(o)
        n = self.n
        F = phi(n, (o[0] - self.t) * DAY)
        self.t = o[0]
        x0, Pz = self.x, self.P
        self.x, self.P, self.xp, self.Pp, self.K = kalman(F, x0, Pz, z, e)
        u = np.array([1, 1, 1, n, n, n])
        L = ref.norm(o[1]) + ref.norm(o[3])
        dz = 2e-15 * L  # a Hill position subtracts geocentric distances
        tx = tP = 0.0
        for jm, ja, jb in JIT:
            x, P, *_ = kalman(F, x0 * (1 + 1e-15 * jm[0]), Pz, z + dz * ja, e + dz * jb, jm)
            tx = max(tx, float(np.linalg.norm((x - self.x) / u)))
            tP = max(tP, float(np.linalg.norm(scaled(P - self.P, u))))
        c = np.linalg.norm((self.K @ (z - self.xp[:3])) / u)
        s = np.linalg.norm(self.xp / u) + np.linalg.norm(z) + c
        S = self.Pp[:3, :3] + np.diag(e * e)
        d = np.sqrt(np.diag(S))
        self.bad = min(1.0, 1e-14 * np.linalg.cond(scaled(S, d)) ** 2) if d.all() else 1.0  # an inverse by cofactors loses the square of the condition number
        Kn = np.linalg.norm(self.K / u[:, None])
        self.amp = 1e-13 * np.linalg.norm(scaled(self.Pp, u)) * (1 + Kn ** 2)
        self.tx = 100 * tx + 5e-13 * s + self.bad * c
        self.tP = 100 * tP + 5e-13 * np.linalg.norm(scaled(self.P, u)) + self.amp + (self.bad * Kn) ** 2 * np.linalg.norm(S)
        return self


def npm(m):
    return np.array(mat(m))


def obs(o):
    t, r, v, d, re_, ae = o
    return SpaceObservation(GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)), Vector3D(*d), re_, ae)


def scaled(M, s):
    return M / np.outer(s, s)


def compare(mon, f, prev, o, kinds=("estimate", "covariance")):
    """filter f has just processed o; prev is a Ref holding the observed estimate before"""
    n = prev.n
    prev.process(o)
    got = np.array(vec(f.x00))
    P = npm(f.p00)
    u = np.array([1, 1, 1, n, n, n])  # natural units: km and km per 1/n
    mon.stats["ill_conditioned_innovations"] = mon.stats.get("ill_conditioned_innovations", 0) + (prev.bad > 1e-6)
    mon.near(kinds[0], float(np.linalg.norm((got - prev.x) / u)), 0.0, prev.tx, observed=got.tolist(), expected=prev.x.tolist())
    mon.near(kinds[1], float(np.linalg.norm(scaled(P - prev.P, u))), 0.0, prev.tP, observed=P.tolist(), expected=prev.P.tolist())
    mon.stats["largest_estimate_tolerance_km"] = max(prev.tx, mon.stats.get("largest_estimate_tolerance_km", 0.0))
    mon.equal("epoch", f.epoch.value, o[0])
    s = f.propagator.state
    mon.check("propagator", vec(s.position) + vec(s.velocity) == vec(f.x00) and vec(s.vector) == vec(f.x00), "propagator state is not the estimate")
    d = scaled(P, u)
    w = scaled(prev.P, u)
    amp = prev.amp
    mon.near("symmetric", float(np.abs(d - d.T).max()), 0.0, prev.tP + amp + 10 * float(np.abs(w - w.T).max()))
    ev = np.linalg.eigvalsh((d + d.T) / 2)
    mon.check("positive", ev[0] > -prev.tP - amp, "covariance eigenvalue %g" % ev[0])
    g = scaled(prev.Pp - P, u)
    ge = np.linalg.eigvalsh((g + g.T) / 2)
    mon.check("shrinks", ge[0] > -(prev.tP + 1e-12 * np.linalg.norm(scaled(prev.Pp, u))), "a measurement increased the covariance by %g" % -ge[0])


def look(rng, t, r, v, prev_dir=None):
    d = prev_dir or ref.scale(gen.direction(rng), gen.logu(rng, 0.1, rng.choice([500, 500, 4000])))
    if prev_dir is None and rng.random() < 0.2:  # straight along an inertial axis or plane
        k = rng.randrange(3)
        d = tuple(c if (i == k) == (k != 1) else 0.0 for i, c in enumerate(d))
    re_, ae = rng.choice([gen.logu(rng, 1e-6, 10), 0.01]), rng.choice([gen.logu(rng, 1e-8, 1e-2), 1e-5])
    if rng.random() < 0.06:  # a perfect instrument in one respect
        re_, ae = rng.choice([(0.0, ae), (re_, 0.0)])
    return (t, r, v, d, re_, ae)


def orbit(rng):
    a = gen.tame_orbit(rng, 0.3)
    return a, ref.elements_to_rv(*a)


def make(mon, rng, t):
    a, (r, v) = orbit(rng)
    n = math.sqrt(ref.MU / a[0] ** 3)
    s = gen.logu(rng, 0.1, 300)
    x = ref.scale(gen.direction(rng), s) + ref.scale(gen.direction(rng), s * n * rng.uniform(0, 2))
    if rng.random() < 0.15:  # nothing known yet, or at rest
        x = rng.choice([(0.0,) * 6, x[:3] + (0.0,) * 3, (0.0,) * 3 + x[3:]])
    f = mon.call("RelativeKalman", RelativeKalman, Epoch(t), Hill(HCW(Epoch(t), Vector3D(*x[:3]), Vector3D(*x[3:])), a[0]))
    mon.check("initial", vec(f.x00) == x and f.epoch.value == t, "initial estimate not taken over")
    mon.near("initial", float(np.abs(npm(f.p00) - P0).max()), 0.0, 1e-15)
    return f, (r, v, n, x)


def prev_of(f, n):
    p = Ref(f.epoch.value, vec(f.x00), n)
    p.P = npm(f.p00)
    return p


def history(mon, rng):
    t = gen.epoch(rng, 36000.0, 88069.0)
    k = rng.choice([1, 1, 2, 4])
    seq = []
    mon.case("history", t, k, rng.random())
    fs = [make(mon, rng, t) for _ in range(k)]
    for i in range(rng.choice([rng.randint(60, 150), rng.randint(60, 150), rng.randint(150, 450)]) if rng.random() < 0.025 else rng.randint(3, 12 if mon.tier == "quick" else 40)):
        j = rng.randrange(k)
        f, (r, v, n, x) = fs[j]
        others = [(vec(g[0].x00), mat(g[0].p00), g[0].epoch.value) for g in fs]
        dt = rng.choice([0.0, 60.0, 300.0, rng.uniform(0, 2000), -rng.uniform(0, 600), gen.logu(rng, 1e-2, 1e4)])
        if rng.random() < 0.08:  # a target lost for hours or days, or old looks delivered late
            dt = rng.choice([1, 1, -1]) * gen.logu(rng, 1e4, 4e5)
        tt = f.epoch.value + dt / DAY
        ro, vo = ref.kepler_propagate(r, v, (tt - t) * DAY)
        # near the predicted place, or anywhere
        if rng.random() < 0.7:
            xp = ref.hcw_propagate(vec(f.x00), n, (tt - f.epoch.value) * DAY)
            if max(abs(c) for c in xp[:3]) < 5000:
                rt, _ = ref.from_hcw(ref.add(xp[:3], ref.scale(gen.direction(rng), gen.logu(rng, 1e-3, 2))), (0, 0, 0), ro, vo)
                o = look(rng, tt, ro, vo, ref.sub(rt, ro))
            else:
                o = look(rng, tt, ro, vo)
        else:
            o = look(rng, tt, ro, vo)
        seq.append((j, o))
        mon.context = ("history", (t, k, [fmt_(g) for g in fs], seq[-3:]))
        prev = prev_of(f, n)
        ob = obs(o)
        mon.call("process", f.process, ob)
        compare(mon, f, prev, o)
        mon.check("observation-kept", vec(ob.observed_direction) == o[3] and vec(ob.observer_state.position) == o[1] and ob.observer_state.epoch.value == o[0],
                  "observation changed by processing")
        for i2, g in enumerate(fs):
            if i2 != j:
                mon.check("independent", (vec(g[0].x00), mat(g[0].p00), g[0].epoch.value) == others[i2], "processing one filter changed another")
    g = RelativeKalman(Epoch(t), Hill(HCW(Epoch(t), Vector3D(1, 2, 3), Vector3D(0, 0, 0)), 7000))
    mon.near("defaults", float(np.abs(npm(g.p00) - P0).max()), 0.0, 1e-15)
    mon.near("defaults", float(np.abs(npm(RelativeKalman.DEFAULT_COVARIANCE) - P0).max()), 0.0, 1e-15)
    mon.near("defaults", float(np.abs(npm(RelativeKalman.DEFAULT_NOISE) - Q).max()), 0.0, 1e-25)
    mon.near("defaults", float(np.abs(npm(RelativeKalman.H) - H).max()), 0.0, 0.0)


def fmt_(g):
    return g[1]


def converge(mon, rng):
    """truth on Hill dynamics, accurate looks: the estimate must converge to the truth from a wrong start"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    a = gen.logu(rng, 6800, 45000)
    n = math.sqrt(ref.MU / a ** 3)
    el = (a, 0.0, rng.uniform(0.05, 3.0), gen.angle(rng), 0.0, gen.angle(rng))
    ro, vo = ref.elements_to_rv(*el)
    s = gen.logu(rng, 2, 50)
    truth = ref.scale(gen.direction(rng), s) + ref.scale(gen.direction(rng), s * n * 0.3)
    wrong = ref.add(truth[:3], ref.scale(gen.direction(rng), rng.uniform(0.2, 1.0))) + ref.add(truth[3:], ref.scale(gen.direction(rng), n * rng.uniform(0, 0.5)))
    re_, ae = gen.logu(rng, 1e-4, 1e-2), gen.logu(rng, 1e-7, 1e-5)
    mon.case("converge", t, el, truth, wrong, re_, ae)
    f = mon.call("RelativeKalman", RelativeKalman, Epoch(t), Hill(HCW(Epoch(t), Vector3D(*wrong[:3]), Vector3D(*wrong[3:])), a))
    m = 40
    e0 = ref.norm(ref.sub(wrong[:3], truth[:3]))
    for i in range(1, m + 1):
        tt = t + i * (2 * math.pi / n) / m / DAY
        dt = (tt - t) * DAY
        o1, o2 = ref.kepler_propagate(ro, vo, dt)
        x = ref.hcw_propagate(truth, n, dt)
        rt, _ = ref.from_hcw(x[:3], x[3:], o1, o2)
        d = ref.sub(rt, o1)
        mon.call("process", f.process, obs((tt, o1, o2, d, re_, ae)))
    err = ref.norm(ref.sub(vec(f.x00)[:3], x[:3]))
    verr = ref.norm(ref.sub(vec(f.x00)[3:], x[3:])) / n
    lim = 0.02 * e0 + 3 * (re_ + ae * 400)
    mon.near("converges", err, 0.0, lim)
    mon.near("converges", verr, 0.0, 3 * lim)


def craft(mon, rng):
    """the spacecraft-level path: acquire a seed, then feed simulated looks to the filter"""
    t = gen.epoch(rng, 36000.0, 88069.0)
    a, (r, v) = orbit(rng)
    tr_, tv = gen.bound_nearby(rng, r, v, rng.choice([1, 1, 0.02]), rng.choice([200, 200, 200, 3000]))
    sr, sv = ref.add(tr_, ref.scale(gen.direction(rng), 0.5)), tv
    # a seed catalogued earlier or later than now has to be carried to the present
    off = rng.choice([0.0, 0.0, rng.choice([1, -1]) * gen.logu(rng, 1.0, rng.choice([3e3, 3e3, 3e3, 3e5]))])
    mon.case("craft", t, a, tr_, tv, sr, off)
    c, tgt, seed = (mon.call("Spacecraft", Spacecraft, GCRF(Epoch(ep), Vector3D(*p), Vector3D(*q))) for p, q, ep in ((r, v, t), (tr_, tv, t), (sr, sv, t + off / DAY)))
    for k in (c, tgt, seed):
        gen.outfit(rng, k)
    mon.call("acquire", c.acquire, seed)
    mon.near("craft", seed.current_epoch().value, t, 5e-11 + (abs(off) / 300 + 2) * 2 * math.ulp(t))
    if off:
        sr, sv = vec(seed.position()), vec(seed.velocity())  # where its own propagation (C12) puts it
    x = ref.to_hcw(r, v, sr, sv)
    mon.vnear("craft", vec(c.filter.x00)[:3], x[0], 1e-9 + 1e-13 * ref.norm(x[0]))
    mon.vnear("craft", vec(c.filter.x00)[3:], x[1], 1e-12 * (1 + ref.norm(x[1])))
    mon.equal("craft", c.filter.epoch.value, t)
    e = ref.norm(v) ** 2 / 2 - ref.MU / ref.norm(r)
    n = math.sqrt(ref.MU / (-ref.MU / (2 * e)) ** 3)
    mon.near("craft", c.filter.propagator.n, n, 1e-11 * n)
    mon.near("initial", float(np.abs(npm(c.filter.p00) - P0).max()), 0.0, 1e-15)
    for i in range(gen.length(rng, 1, 4, 6, 0.05)):
        if rng.random() < 0.2:  # acquired afresh, from the same or another seed: nothing of the old filter remains
            s2 = rng.choice([seed, seed, tgt])
            mon.call("acquire", c.acquire, s2)
            p, q = vec(c.position()), vec(c.velocity())
            x = ref.to_hcw(p, q, vec(s2.position()), vec(s2.velocity()))
            mon.vnear("craft", vec(c.filter.x00)[:3], x[0], 1e-9 + 1e-13 * ref.norm(x[0]))
            mon.vnear("craft", vec(c.filter.x00)[3:], x[1], 1e-12 * (1 + ref.norm(x[1])))
            mon.equal("craft", c.filter.epoch.value, c.current_epoch().value)
            e = ref.norm(q) ** 2 / 2 - ref.MU / ref.norm(p)
            n = math.sqrt(ref.MU / (-ref.MU / (2 * e)) ** 3)
            mon.near("craft", c.filter.propagator.n, n, 1e-11 * n)
            mon.near("initial", float(np.abs(npm(c.filter.p00) - P0).max()), 0.0, 1e-15)
        if rng.random() < 0.8:
            tt = c.current_epoch().plus_days(rng.uniform(10, 400) / DAY)
            mon.call("step_to_epoch", c.step_to_epoch, tt)
            mon.call("step_to_epoch", tgt.step_to_epoch, tt)
        if rng.random() < 0.2:  # burns of either vehicle leave the filter to its own devices
            who, dv = rng.choice([c, tgt]), Vector3D(*ref.scale(gen.direction(rng), gen.logu(rng, 1e-6, 2e-3)))
            mon.call("burn", rng.choice([who.impulsive_maneuver, who.finite_maneuver]), dv)
            if tgt.current_epoch().value != c.current_epoch().value:
                mon.call("sync", rng.choice([c, tgt]).step_to_epoch, max(c.current_epoch(), tgt.current_epoch(), key=lambda e_: e_.value))
        prev = prev_of(c.filter, c.filter.propagator.n)
        which = rng.choice(["wfov", "nfov"])
        st = random.getstate()
        ob = mon.call("observe", getattr(c, "observe_" + which), tgt)
        random.setstate(st)
        mon.call("process_" + which, getattr(c, "process_" + which), tgt)
        s = ob.observer_state
        o = (s.epoch.value, vec(s.position), vec(s.velocity), vec(ob.observed_direction), ob.range_error, ob.angular_error)
        mon.equal("craft", (o[0], o[1]), (c.current_epoch().value, vec(c.position())))
        compare(mon, c.filter, prev, o, ("craft", "craft"))
