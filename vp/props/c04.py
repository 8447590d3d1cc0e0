"""C04 rotations, angles, noise"""
import math
import random

from openspace.math.linalg import Vector3D

from .. import core, gen, ref

RULE = ("vectors and axes of every orientation and length 1e-6..1e8 (axis-aligned, parallel, antiparallel, nearly parallel "
        "included) and angles of every quadrant, sign and several turns; noise drawn in blocks from recorded seeds; "
        "non-trivial when the input tuple is new")
ASSUMPTIONS = ["statistical monitors use fixed seeds and 6.5-sigma limits"]
vec, mat = core.vec, core.mat


def V(t):
    return Vector3D(*t)


def theta(rng):
    k = rng.randrange(6)
    if k < 3:
        return gen.angle(rng)
    if k == 3:
        return -gen.angle(rng)
    if k == 4:
        return rng.uniform(-30, 30)
    return rng.choice([-1, 1]) * gen.logu(rng, 1e-15, 1e-3)


def length(rng):
    return rng.choice([1.0, gen.logu(rng, 1e-6, 1e8)])


def run(mon, rng, tier, worker, workers):
    mon.need("rotation", "rotation-matrix", "rotation-additive", "rotation-inverse", "unit-parallel", "angle", "angle-range",
             "magnitude-noise-direction", "magnitude-noise-sigma", "angular-noise-length", "angular-noise-sigma",
             "angular-noise-uniform", "zero-noise", "one-noise", "noise-shape")
    N = (96000 if tier == "quick" else 800000) // workers
    for _ in range(N):
        mon.run_case(rotate, mon, rng)
        mon.run_case(angles, mon, rng)
    B = (144 if tier == "quick" else 480) // workers
    pool = {"magnitude": [], "tilt": []}
    for i in range(B):
        mon.run_case(noise, mon, rng, i + worker * B, pool)
    mon.run_case(shape, mon, pool)
    pool = {"magnitude": [], "tilt": []}
    for _ in range(N // 10):
        mon.run_case(zero_noise, mon, rng, pool)
    mon.run_case(shape, mon, pool)


def rotate(mon, rng):
    a = ref.scale(gen.direction(rng), length(rng))
    k = ref.scale(gen.direction(rng), length(rng))
    if rng.random() < 0.1:
        k = ref.scale(a, rng.choice([1.0, -1.0, 2.0, 1e-3]))
    t, u = theta(rng), theta(rng)
    mon.case("rotate", a, k, t, u)
    n = ref.norm(a)
    tol = 1e-14 * n * (1 + abs(t)) + 1e-300
    v, ax = V(a), V(k)
    r = mon.call("rotation_about_axis", v.rotation_about_axis, ax, t)
    mon.vnear("rotation", r, ref.rodrigues(a, k, t), tol)
    mon.near("rotation", ref.norm(vec(r)), n, tol)
    w = ref.scale(gen.direction(rng), length(rng))
    s = mon.call("rotation_about_axis", V(w).rotation_about_axis, ax, t)
    mon.near("rotation", ref.dot(vec(r), vec(s)), ref.dot(a, w), 4e-14 * n * ref.norm(w) * (1 + abs(t)))
    mon.vnear("rotation", mon.call("rotation_about_axis", ax.rotation_about_axis, ax, t), k, 1e-14 * ref.norm(k))
    two = mon.call("rotation_about_axis", r.rotation_about_axis, ax, u)
    one = mon.call("rotation_about_axis", v.rotation_about_axis, ax, t + u)
    mon.vnear("rotation-additive", two, vec(one), 1e-14 * n * (2 + abs(t) + abs(u)))
    mon.vnear("rotation-inverse", mon.call("rotation_about_axis", r.rotation_about_axis, ax, -t), a, tol)
    m = mat(mon.call("rotation_matrix", Vector3D.rotation_matrix, ax, t))
    for i in range(3):
        for j in range(3):
            mon.near("rotation-matrix", ref.dot(m[i], m[j]), float(i == j), 1e-14)
    mon.near("rotation-matrix", ref.dot(m[0], ref.cross(m[1], m[2])), 1.0, 1e-14)
    mon.vnear("rotation-matrix", ref.mv(m, a), vec(r), tol)
    mon.check("rotation", vec(v) == a and vec(ax) == k, "operand changed")


def angles(mon, rng):
    a = ref.scale(gen.direction(rng), length(rng))
    b = ref.scale(gen.direction(rng), length(rng))
    c = rng.randrange(8)
    if c == 0:
        b = ref.scale(a, rng.choice([1.0, -1.0, 3.0, -0.1, 1e-5, gen.logu(rng, 1e-6, 1e6)]))
    elif c == 1:
        b = ref.add(ref.scale(a, rng.choice([1, -1])), ref.scale(gen.direction(rng), ref.norm(a) * gen.logu(rng, 1e-12, 1e-2)))
        if ref.norm(b) == 0:
            return
    elif c == 2:
        b = ref.scale(ref.perp(a)[0], length(rng))
    mon.case("angle", a, b)
    x, y = V(a), V(b)
    g = mon.call("angle", x.angle, y)
    want = ref.angle(a, b)
    tol = min(1e-7, 4e-15 / max(math.sin(want), 1e-30)) + 1e-15
    mon.near("angle", g, want, tol)
    mon.check("angle-range", 0 <= g <= math.pi, "angle %r outside [0, pi]" % g)
    mon.near("angle", mon.call("angle", y.angle, x), g, 2 * tol)
    k, l = gen.logu(rng, 1e-5, 1e5), gen.logu(rng, 1e-5, 1e5)
    mon.near("angle", mon.call("angle", V(ref.scale(a, k)).angle, V(ref.scale(b, l))), g, 2 * tol)
    mon.near("angle", mon.call("angle", x.angle, V(ref.scale(b, -1))), math.pi - g, 2 * tol)
    u = mon.call("normalized", x.normalized)
    mon.vnear("unit-parallel", u, ref.unit(a), 4e-15)
    mon.near("unit-parallel", ref.norm(vec(u)), 1.0, 4e-15)
    mon.check("angle", vec(x) == a and vec(y) == b, "operand changed")


def zero_noise(mon, rng, pool):
    a = ref.scale(gen.direction(rng), length(rng))
    mon.case("zero-noise", a)
    n = ref.norm(a)
    random.seed(rng.random())
    for fn, args in ((V(a).with_angular_noise, (0,)), (V(a).with_magnitude_noise, (0,)), (V(a).with_noise, (0, 0))):
        mon.vnear("zero-noise", mon.call("noise", fn, *args), a, 3e-14 * n)
    # one of the two errors may be zero; the other is still there
    s, t = gen.logu(rng, 1e-4, 0.3), gen.logu(rng, 1e-6, 0.3)
    one = [vec(mon.call("noise", V(a).with_noise, s * n, 0)) for _ in range(4)]
    two = [vec(mon.call("noise", V(a).with_noise, 0, t)) for _ in range(4)]
    for p, q in zip(one, two):
        mon.near("one-noise", ref.norm(ref.cross(p, ref.unit(a))), 0.0, 1e-13 * (n + ref.norm(p)))
        mon.near("one-noise", ref.norm(q), n, 1e-13 * n)
    # four draws all within 1e-6 sigma of the truth: p < 1e-24
    mon.check("one-noise", max(abs(ref.norm(p) - n) for p in one) > 1e-6 * s * n, "no range noise without angular noise")
    mon.check("one-noise", max(ref.norm(ref.sub(q, a)) for q in two) > 1e-6 * t * n, "no angular noise without range noise")
    # the whole law, over all cases: the first draw of each
    pool["magnitude"].append((ref.dot(one[0], a) / n - n) / (s * n))
    pool["tilt"].append(ref.angle(two[0], a) / t)


DIRS = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -1, 0), (1e-9, 0, 1), (1e-5, -1e-5, -1), (1, 1, 1), (-0.3, 0.2, 0.9)]


def noise(mon, rng, idx, pool):
    """a block of draws about one vector: sample moments against the Gaussian/uniform law"""
    d = ref.unit(DIRS[idx]) if idx < len(DIRS) else gen.direction(rng)
    L = gen.logu(rng, 1e-2, 1e5)
    a = ref.scale(d, L)
    sr = gen.logu(rng, 1e-4, 0.15) * L
    sa = rng.choice([1e-5, gen.logu(rng, 1e-6, 0.3)])
    n = 1500
    seed = rng.randrange(1 << 30)
    wide = rng.choice([sr, sr, gen.logu(rng, 0.2, 3.0) * L])  # errors comparable with the length: the signed length is Gaussian
    mon.case("noise-block", a, sr, sa, seed, wide)
    random.seed(seed)
    v = V(a)
    e1, e2 = ref.perp(a)
    for combined in (False, True):
        zr, za, az = [], [], []
        for _ in range(n):
            if combined:
                q = vec(mon.call("with_noise", v.with_noise, sr, sa))
                zr.append((ref.norm(q) - L) / sr)
            else:
                p = vec(mon.call("with_magnitude_noise", v.with_magnitude_noise, wide))
                s = ref.dot(p, d)
                mon.near("magnitude-noise-direction", ref.norm(ref.cross(p, d)), 0.0, 1e-13 * (L + abs(s)))
                zr.append((s - L) / wide)
                q = vec(mon.call("with_angular_noise", v.with_angular_noise, sa))
                mon.near("angular-noise-length", ref.norm(q), L, 1e-13 * L)
            x, y = ref.dot(q, e1), ref.dot(q, e2)
            za.append(ref.angle(q, a) / sa)
            az.append(math.atan2(y, x))
        pool["magnitude"] += zr
        pool["tilt"] += za
        lim = 6.5 / math.sqrt(n)
        m1 = sum(zr) / n
        m2 = sum(z * z for z in zr) / n
        m4 = sum(z ** 4 for z in zr) / n
        mon.near("magnitude-noise-sigma", m1, 0.0, lim)
        mon.near("magnitude-noise-sigma", m2, 1.0, lim * math.sqrt(2))
        mon.near("magnitude-noise-sigma", m4, 3.0, lim * math.sqrt(96) + 0.3)
        a1 = sum(za) / n
        a2 = sum(z * z for z in za) / n
        a4 = sum(z ** 4 for z in za) / n
        mon.near("angular-noise-sigma", a2, 1.0, lim * math.sqrt(2))
        mon.near("angular-noise-sigma", a1, math.sqrt(2 / math.pi), lim * math.sqrt(1 - 2 / math.pi) + 1e-3)
        mon.near("angular-noise-sigma", a4, 3.0, lim * math.sqrt(96) + 0.3)
        for k in (1, 2, 3, 4):
            mon.near("angular-noise-uniform", sum(math.cos(k * t) for t in az) / n, 0.0, lim / math.sqrt(2))
            mon.near("angular-noise-uniform", sum(math.sin(k * t) for t in az) / n, 0.0, lim / math.sqrt(2))
        # tilt size and tilt direction and range error are independent of each other
        for k in (1, 2):
            mon.near("angular-noise-uniform", sum((z * z - 1) * math.cos(k * t) for z, t in zip(za, az)) / n, 0.0, lim)
            mon.near("angular-noise-uniform", sum(r * math.cos(k * t) for r, t in zip(zr, az)) / n, 0.0, lim)
    mon.check("magnitude-noise-direction", vec(v) == a, "operand changed")


def phi(z):
    return 0.5 * math.erfc(-z / math.sqrt(2))


def shape(mon, pool):
    """all blocks together: the whole distribution (largest departure from the Gaussian law, and the tails)"""
    mon.case("noise-shape", len(pool["magnitude"]), len(pool["tilt"]))
    for name, zs in pool.items():
        zs = sorted(zs)
        n = len(zs)
        law = phi if name == "magnitude" else (lambda z: 2 * phi(z) - 1)
        gap = max(max(abs(law(z) - i / n), abs(law(z) - (i + 1) / n)) for i, z in enumerate(zs))
        mon.near("noise-shape", gap, 0.0, 3.6 / math.sqrt(n), observed="%s: largest departure from the Gaussian law %g" % (name, gap))  # p < 1e-10
        for k in (0.55, 1.05, 1.55, 2.05, 2.55, 3.05, 3.55):
            for side in (1, -1) if name == "magnitude" else (1,):
                p = 1 - phi(k) if name == "magnitude" else 2 * (1 - phi(k))
                c = sum(side * z > k for z in zs)
                # variance-stabilised count: 6.5 sigma
                mon.near("noise-shape", 2 * math.sqrt(c + 0.375), 2 * math.sqrt(n * p + 0.375), 6.5, observed="%s: %d of %d beyond %g sigma" % (name, c, n, side * k))
