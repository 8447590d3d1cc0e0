"""C13 relative motion (Hill / Clohessy-Wiltshire)"""
import math

import numpy as np
from openspace.coordinates.states import GCRF, HCW, StateConvert
from openspace.math.linalg import Vector3D
from openspace.propagators.relative import Hill
from openspace.time import Epoch
from scipy.linalg import expm

from .. import core, gen, ref

RULE = ("relative states (metres to thousands of km, single-axis and generic, zero), origin semi-major axes 6500..60000 km, times of either sign "
        "from 1e-3 s to many periods, random splittings of a time into steps; non-trivial when state, radius and time are new")
ASSUMPTIONS = ["the epoch field of a stepped relative state is arbitrary (documented), so it is not compared"]
vec, mat = core.vec, core.mat


def run(mon, rng, tier, worker, workers):
    mon.need("long-march", "mean-motion", "solution", "generator", "identity", "split", "there-and-back", "default-step", "matrix", "two-body", "state-consistent")
    N = (240000 if tier == "quick" else 1000000) // workers
    for _ in range(N):
        mon.run_case(solution, mon, rng)
    for _ in range(N // 4):
        mon.run_case(splits, mon, rng)
    for _ in range(N // 10):
        mon.run_case(generator, mon, rng)
        mon.run_case(inertial, mon, rng)
    for _ in range(N // 200):
        mon.run_case(march, mon, rng)


def rel(rng):
    k = rng.randrange(6)
    if k == 0:
        x = [0.0] * 6
        x[rng.randrange(6)] = rng.choice([-1, 1]) * gen.logu(rng, 1e-3, 100)
        return tuple(x)
    s = gen.logu(rng, 1e-3, 3000)
    p = ref.scale(gen.direction(rng), s)
    v = ref.scale(gen.direction(rng), s * gen.logu(rng, 1e-6, 1e-2))
    if k == 1:
        p = (0.0, 0.0, 0.0)
    if k == 2:
        v = (0.0, 0.0, 0.0)
    return p + v


def time_(rng, n):
    P = 2 * math.pi / n
    k = rng.randrange(8)
    s = rng.choice([-1, 1])
    if k == 0:
        return s * P * rng.choice([0.25, 0.5, 0.75, 1, 2, 5])
    if k == 1:
        return s * gen.logu(rng, 1e-3, 60)
    if k == 2:
        return s * P * (rng.uniform(1, 30) if rng.random() < 0.7 else gen.logu(rng, 30, 3000))
    return s * P * rng.uniform(0, 1.5)


def tol(x, n, t):
    """size of the terms of the closed form at this state and time"""
    s = ref.norm(x[:3]) + ref.norm(x[3:]) / n
    k = 1 + abs(n * t)
    return 2e-14 * s * 8 * k * k, 2e-14 * s * 8 * k * k * n


def tol1(x, n, t):
    """one closed-form evaluation: the phase n t is known to rounding of itself"""
    s = ref.norm(x[:3]) + ref.norm(x[3:]) / n
    k = 8 + abs(n * t)
    return 3e-14 * s * k, 3e-14 * s * k * n


def make(mon, x, a):
    return mon.call("Hill", Hill, HCW(Epoch(59000.25), Vector3D(*x[:3]), Vector3D(*x[3:])), a)


def now(h):
    return vec(h.state.position) + vec(h.state.velocity)


def close(mon, kind, got, want, t):
    mon.vnear(kind, got[:3], want[:3], t[0] + 1e-300)
    mon.vnear(kind, got[3:], want[3:], t[1] + 1e-300)


def solution(mon, rng):
    a = gen.logu(rng, 6500, 60000) if rng.random() < 0.8 else gen.logu(rng, 500, 1e6)
    n = math.sqrt(ref.MU / a ** 3)
    x, t = rel(rng), time_(rng, n)
    mon.case("solution", a, x, t)
    h = make(mon, x, a)
    mon.near("mean-motion", h.n, n, 1e-14 * n)
    want = ref.hcw_propagate(x, n, t)
    T = tol1(x, n, t)
    M = mon.call("system_matrix", h.system_matrix, t)
    mon.equal("state-consistent", now(h), x)
    got = tuple(ref.dot(r, x) for r in mat(M))
    close(mon, "matrix", got, want, T)
    if rng.random() < 0.3:
        h.step_size = t
        mon.call("step", h.step)
        mon.equal("default-step", h.step_size, t)
        close(mon, "default-step", now(h), want, T)
    else:
        mon.call("step_by_seconds", h.step_by_seconds, t)
        close(mon, "solution", now(h), want, T)
        mon.equal("default-step", h.step_size, 600)
    mon.check("state-consistent", vec(h.state.vector) == now(h), "six-vector differs from position and velocity")
    mon.near("mean-motion", h.n, n, 1e-14 * n)


def march(mon, rng):
    """one propagator used for hundreds of steps: each is the exact solution from where the last one ended"""
    a = gen.logu(rng, 6500, 60000)
    n = math.sqrt(ref.MU / a ** 3)
    x = rel(rng)
    m = rng.randint(20, 400)
    mon.case("march", a, x, m)
    h = make(mon, x, a)
    for _ in range(m):
        x = now(h)
        if rng.random() < 0.3:
            t = h.step_size
            mon.call("step", h.step)
        else:
            t = rng.choice([60.0, gen.logu(rng, 1e-3, 600), -gen.logu(rng, 1e-3, 600), time_(rng, n)])
            mon.call("step_by_seconds", h.step_by_seconds, t)
        close(mon, "long-march", now(h), ref.hcw_propagate(x, n, t), tol1(x, n, t))


def splits(mon, rng):
    a = gen.logu(rng, 6500, 60000) if rng.random() < 0.8 else gen.logu(rng, 500, 1e6)
    n = math.sqrt(ref.MU / a ** 3)
    x = rel(rng)
    ts = [time_(rng, n) * rng.choice([0.1, 1]) for _ in range(rng.randint(2, 6))]
    mon.case("splits", a, x, ts)
    h = make(mon, x, a)
    mon.call("zero", h.step_by_seconds, 0)
    close(mon, "identity", now(h), x, tol(x, n, 0))
    I = mat(mon.call("system_matrix", h.system_matrix, 0))
    for i in range(6):
        for j in range(6):
            mon.near("identity", I[i][j], float(i == j), 1e-15)
    big, size = sum(abs(t) for t in ts), [0.0, 0.0]
    S = 0.0
    for t in ts:
        mon.call("piece", h.step_by_seconds, t)
        S += t
    k = 1 + n * big
    s = (ref.norm(x[:3]) + ref.norm(x[3:]) / n) * k
    T = (4e-14 * s * 8 * k * k * len(ts), 4e-14 * s * 8 * k * k * len(ts) * n)
    close(mon, "split", now(h), ref.hcw_propagate(x, n, S), T)
    one = make(mon, x, a)
    mon.call("one go", one.step_by_seconds, S)
    close(mon, "split", now(h), now(one), T)
    mon.call("back", h.step_by_seconds, -S)
    T = (T[0] * 2 * k, T[1] * 2 * k)
    close(mon, "there-and-back", now(h), x, T)
    _ = size
    # default steps: the configured size each time, default 600 s
    d = make(mon, x, a)
    m = rng.randint(1, 4)
    for _ in range(m):
        mon.call("step", d.step)
    close(mon, "default-step", now(d), ref.hcw_propagate(x, n, 600.0 * m), (tol(x, n, 600.0 * m)[0] * 4 * m, tol(x, n, 600.0 * m)[1] * 4 * m))


def generator(mon, rng):
    """second opinion: the matrix exponential of the Hill equations themselves"""
    a = gen.logu(rng, 6500, 60000) if rng.random() < 0.8 else gen.logu(rng, 500, 1e6)
    n = math.sqrt(ref.MU / a ** 3)
    t = rng.uniform(-6, 6) / n
    mon.case("generator", a, t)
    A = np.zeros((6, 6))
    A[0, 3] = A[1, 4] = A[2, 5] = 1
    A[3, 0], A[3, 4], A[4, 3], A[5, 2] = 3, 2, -2, -1  # time unit 1/n
    E = expm(A * (n * t))
    h = make(mon, (0.0,) * 6, a)
    M = mat(mon.call("system_matrix", h.system_matrix, t))
    for i in range(6):
        for j in range(6):
            u = (n if i >= 3 else 1) / (n if j >= 3 else 1)
            mon.near("generator", M[i][j], E[i, j] * u, 1e-11 * u)


def inertial(mon, rng):
    """small separations: agrees with differenced two-body motion to second order"""
    a = gen.logu(rng, 6700, 45000)
    n = math.sqrt(ref.MU / a ** 3)
    ro, vo = ref.elements_to_rv(a, 0.0, gen.incl(rng), gen.angle(rng), gen.angle(rng), gen.angle(rng))
    d = gen.logu(rng, 1e-3, 20)
    x = ref.scale(gen.direction(rng), d) + ref.scale(gen.direction(rng), d * n * rng.uniform(0, 2))
    t = rng.choice([-1, 1]) * rng.uniform(0, 2 * math.pi) / n
    mon.case("inertial", a, ro, vo, x, t)
    origin = GCRF(Epoch(58000.5), Vector3D(*ro), Vector3D(*vo))
    s = mon.call("to_gcrf", StateConvert.hcw.to_gcrf, HCW(Epoch(58000.5), Vector3D(*x[:3]), Vector3D(*x[3:])), origin)
    r1, v1 = ref.kepler_propagate(vec(s.position), vec(s.velocity), t)
    r2, v2 = ref.kepler_propagate(ro, vo, t)
    f = ref.to_hcw(r2, v2, r1, v1)
    h = make(mon, x, a)
    mon.call("step_by_seconds", h.step_by_seconds, t)
    D = ref.norm(x[:3]) + ref.norm(x[3:]) / n
    e2 = 400 * D * D / a + 1e-6
    mon.vnear("two-body", now(h)[:3], f[0], e2)
    mon.vnear("two-body", now(h)[3:], f[1], e2 * n * 3)
