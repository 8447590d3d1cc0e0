"""C03 linear algebra"""
import math
from fractions import Fraction

from openspace.math import linalg as L

from .. import core, gen

RULE = ("operands: small integers (exact oracle in rationals), unimodular/permutation/singular/tiny-determinant matrices, "
        "and reals over 1e-100..1e100 (rounding-bounded oracle), every operation on each, operand aliasing included; "
        "non-trivial when the operand tuple is new")
mat, vec = core.mat, core.vec
V3 = L.Vector3D
V6 = L.Vector6D
SHAPES = {"33": (3, 3), "36": (3, 6), "63": (6, 3), "66": (6, 6)}


def mk(rows):
    n, m = len(rows), len(rows[0])
    R = [(V3 if m == 3 else V6)(*r) for r in rows]
    return {(3, 3): L.Matrix3D, (3, 6): L.Matrix3by6, (6, 3): L.Matrix6by3, (6, 6): L.Matrix6D}[n, m](*R)


def F(x):
    return Fraction(x)


def mul(a, b):
    bt = list(zip(*b))
    return [tuple(sum(F(x) * F(y) for x, y in zip(r, c)) for c in bt) for r in a]


def absmul(a, b):
    bt = list(zip(*b))
    return [tuple(sum(abs(x) * abs(y) for x, y in zip(r, c)) for c in bt) for r in a]


class O:
    """compares against exact rational results within k rounding errors of the absolute-value bound"""

    def __init__(self, mon, exact):
        self.mon, self.exact = mon, exact

    def num(self, kind, got, want, bound, k=16):
        self.mon.obs[kind] += 1
        try:
            d = abs(F(got) - F(want))
            lim = 0 if self.exact else F(k * 2.3e-16) * F(bound)
            ok = d <= lim
        except Exception:
            ok = False
        if not ok:
            self.mon.violate(kind, "got %r want %r" % (got, float(want)))

    def vect(self, kind, got, want, bound, k=16):
        g = vec(got)
        if len(g) != len(want):
            return self.mon.violate(kind, "wrong dimension: %r" % (g,))
        for a, b, c in zip(g, want, bound):
            self.num(kind, a, b, c, k)

    def matx(self, kind, got, want, bound, k=16):
        g = mat(got)
        if len(g) != len(want) or any(len(a) != len(b) for a, b in zip(g, want)):
            return self.mon.violate(kind, "wrong shape: %r" % (g,))
        for ra, rb, rc in zip(g, want, bound):
            for a, b, c in zip(ra, rb, rc):
                self.num(kind, a, b, c, k)


def entry(rng, exact):
    if exact:
        k = rng.randrange(8)
        if k == 0:
            return 0
        if k == 1:
            return rng.choice([1, -1])
        if k == 2:
            return float(rng.randint(-9, 9))
        return rng.randint(-200, 200)
    return rng.choice([-1, 1]) * rng.random()


def rows(rng, n, m, exact):
    s = 1 if exact else gen.logu(rng, 1e-60, 1e60) if rng.random() < 0.5 else 1.0
    kind = rng.randrange(6)
    out = []
    for i in range(n):
        r = []
        for j in range(m):
            x = entry(rng, exact) * s
            if kind == 0 and i != j:
                x = 0 * s
            if kind == 1 and rng.random() < 0.6:
                x = 0 * s
            r.append(x)
        out.append(tuple(r))
    return out


def run(mon, rng, tier, worker, workers):
    mon.need("vector-op", "matrix-vector", "matrix-matrix", "transpose", "columns", "determinant", "cofactor", "inverse", "identity", "text")
    N = (16000 if tier == "quick" else 60000) // workers
    for _ in range(N):
        mon.run_case(vectors, mon, rng)
        mon.run_case(matrices, mon, rng)
        mon.run_case(square, mon, rng)
    mon.run_case(identity, mon)


def identity(mon):
    mon.case("identity")
    for _ in range(3):
        i = mon.call("identity", L.Matrix6D.identity)
        mon.equal("identity", mat(i), [tuple(1 if a == b else 0 for b in range(6)) for a in range(6)])
        i.row1.x = 7  # a fresh identity must not remember this
    mon.equal("identity", vec(mon.call("diagonal", L.Matrix6D.identity().diagonal)), (1,) * 6)


def vectors(mon, rng):
    exact = rng.random() < 0.5
    o = O(mon, exact)
    for n, cls in ((3, V3), (6, V6)):
        s, t = (1, 1) if exact else (gen.logu(rng, 1e-100, 1e100) if rng.random() < 0.4 else 1.0, 1.0)
        if not exact and rng.random() < 0.5:
            t = s
        a = tuple(entry(rng, exact) * s for _ in range(n))
        b = tuple(entry(rng, exact) * t for _ in range(n))
        if rng.random() < 0.1:
            b = a
        if rng.random() < 0.05:
            b = tuple(-x for x in a)
        if rng.random() < 0.05:
            b = tuple(0 * x for x in a)
        mon.case("vector", a, b)
        x = cls(*a)
        y = x if (b == a and rng.random() < 0.5) else cls(*b)
        ab = tuple(abs(p) + abs(q) for p, q in zip(a, b))
        if rng.random() < 0.1 and max(map(abs, a)) < 1e9:
            shown = [float(q) for q in str(x).split()]
            mon.check("text", len(shown) == n and all(abs(p - q) <= 5.1e-7 + 1e-15 * abs(p) for p, q in zip(a, shown)), "printed as %r" % str(x))
        K = "vector-op"
        o.vect(K, mon.call("plus", x.plus, y), [F(p) + F(q) for p, q in zip(a, b)], ab)
        o.vect(K, mon.call("minus", x.minus, y), [F(p) - F(q) for p, q in zip(a, b)], ab)
        o.num(K, mon.call("dot", x.dot, y), sum(F(p) * F(q) for p, q in zip(a, b)), sum(abs(p) * abs(q) for p, q in zip(a, b)))
        mon.equal(K, vec(mon.call("copy", x.copy)), a)
        if n == 3:
            c = [F(a[1]) * F(b[2]) - F(a[2]) * F(b[1]), F(a[2]) * F(b[0]) - F(a[0]) * F(b[2]), F(a[0]) * F(b[1]) - F(a[1]) * F(b[0])]
            cb = [abs(a[1] * b[2]) + abs(a[2] * b[1]), abs(a[2] * b[0]) + abs(a[0] * b[2]), abs(a[0] * b[1]) + abs(a[1] * b[0])]
            o.vect(K, mon.call("cross", x.cross, y), c, cb)
            k = entry(rng, exact) * rng.choice([1, 1, 0, -1])
            o.vect(K, mon.call("scaled", x.scaled, k), [F(p) * F(k) for p in a], [abs(p * k) for p in a])
            m = mon.call("magnitude", x.magnitude)
            h = math.hypot(*a)
            mon.near(K, m, h, 1e-15 * h)
            mon.near(K, math.sqrt(sum(p * p for p in a)), m, 1e-15 * h)
            r, v = V3(*a), V3(*b)
            mon.equal(K, vec(mon.call("from_position_and_velocity", V6.from_position_and_velocity, r, v)), a + b)
        mon.check(K, vec(x) == a and vec(y) == b, "operand changed")


def matrices(mon, rng):
    """every product, transpose and column of every shape against exact rational results"""
    exact = rng.random() < 0.5
    o = O(mon, exact)
    A = {k: rows(rng, *s, exact) for k, s in SHAPES.items()}
    B = rows(rng, 6, 6, exact)
    if rng.random() < 0.1:
        B = A["66"]
    mon.case("matrices", tuple(sorted(A.items())), tuple(B))
    M = {k: mk(v) for k, v in A.items()}
    Bm = M["66"] if (B is A["66"] and rng.random() < 0.5) else mk(B)

    def vfor(rows_):
        v = tuple(entry(rng, exact) for _ in range(len(rows_[0])))
        return v, (V3 if len(v) == 3 else V6)(*v)

    for k in SHAPES:
        rws, m = A[k], M[k]
        v, V = vfor(rws)
        col = [(x,) for x in v]
        o.vect("matrix-vector", mon.call("multiply_vector", m.multiply_vector, V), [r[0] for r in mul(rws, col)], [r[0] for r in absmul(rws, col)])
        t = mon.call("transpose", m.transpose)
        mon.equal("transpose", mat(t), list(zip(*rws)))
        mon.equal("transpose", mat(mon.call("transpose", t.transpose)), rws)
        for j in range(len(rws[0])):
            mon.equal("columns", vec(mon.call("column", getattr(m, "column_%d" % (j + 1)))), tuple(r[j] for r in rws))
        if len(rws) == len(rws[0]):
            mon.equal("columns", vec(mon.call("diagonal", m.diagonal)), tuple(rws[i][i] for i in range(len(rws))))
    P = "matrix-matrix"
    for fn, x, y in ((M["33"].multiply_matrix3by6, "33", "36"), (M["36"].multiply_matrix_6by3, "36", "63"),
                     (M["63"].multiply, "63", "33"), (M["63"].multiply_matrix3by6, "63", "36"),
                     (M["66"].multiply_matrix_6by3, "66", "63")):
        o.matx(P, mon.call(fn.__name__, fn, M[y]), mul(A[x], A[y]), absmul(A[x], A[y]))
    o.matx(P, mon.call("multiply_matrix", M["66"].multiply_matrix, Bm), mul(A["66"], B), absmul(A["66"], B))
    o.matx(P, mon.call("multiply_matrix", Bm.multiply_matrix, M["66"]), mul(B, A["66"]), absmul(B, A["66"]))
    S = [tuple(abs(x) + abs(y) for x, y in zip(r, q)) for r, q in zip(A["66"], B)]
    o.matx(P, mon.call("plus", M["66"].plus, Bm), [tuple(F(x) + F(y) for x, y in zip(r, q)) for r, q in zip(A["66"], B)], S)
    o.matx(P, mon.call("minus", M["66"].minus, Bm), [tuple(F(x) - F(y) for x, y in zip(r, q)) for r, q in zip(A["66"], B)], S)
    C = rows(rng, 3, 3, exact)
    o.matx(P, mon.call("plus", M["33"].plus, mk(C)), [tuple(F(x) + F(y) for x, y in zip(r, q)) for r, q in zip(A["33"], C)],
           [tuple(abs(x) + abs(y) for x, y in zip(r, q)) for r, q in zip(A["33"], C)])
    k = entry(rng, exact)
    o.matx(P, mon.call("scaled", M["33"].scaled, k), [tuple(F(x) * F(k) for x in r) for r in A["33"]], [tuple(abs(x * k) for x in r) for r in A["33"]])
    for kk in SHAPES:
        mon.check("transpose", mat(M[kk]) == A[kk], "operand changed")


def det3(r):
    a = [[F(x) for x in q] for q in r]
    return (a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1]) - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
            + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0]))


def cof3(r):
    a = [[F(x) for x in q] for q in r]
    out = []
    for i in range(3):
        row = []
        for j in range(3):
            I = [x for x in range(3) if x != i]
            J = [x for x in range(3) if x != j]
            d = a[I[0]][J[0]] * a[I[1]][J[1]] - a[I[0]][J[1]] * a[I[1]][J[0]]
            row.append(d if (i + j) % 2 == 0 else -d)
        out.append(tuple(row))
    return out


def square(mon, rng):
    """determinant, cofactors, adjugate and inverse of 3x3 matrices of every kind"""
    kind = rng.randrange(9)
    exact = True
    if kind == 0:  # permutation, zero pivots
        p = rng.sample(range(3), 3)
        R = [tuple(rng.choice([-1, 1]) * (1 if p[i] == j else 0) for j in range(3)) for i in range(3)]
    elif kind == 1:  # unimodular
        R = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
        for _ in range(4):
            i, j = rng.sample(range(3), 2)
            k = rng.randint(-3, 3)
            R[i] = [x + k * y for x, y in zip(R[i], R[j])]
        R = [tuple(r) for r in R]
    elif kind == 2:  # integers
        R = [tuple(rng.randint(-30, 30) for _ in range(3)) for _ in range(3)]
    elif kind == 3:  # singular
        a, b = [tuple(rng.randint(-9, 9) for _ in range(3)) for _ in range(2)]
        c = tuple(x * rng.randint(-2, 2) + y for x, y in zip(a, b)) if rng.random() < 0.5 else a
        R = [a, b, c]
        rng.shuffle(R)
    elif kind == 4:  # diagonal of covariance scale: tiny determinant
        exact = False
        R = [tuple((gen.logu(rng, 1e-14, 1e2) if i == j else 0.0) for j in range(3)) for i in range(3)]
    elif kind == 5:  # symmetric positive, covariance-like
        exact = False
        s = gen.logu(rng, 1e-7, 1e3)
        q = [[rng.gauss(0, s) for _ in range(3)] for _ in range(3)]
        R = [tuple(sum(q[i][k] * q[j][k] for k in range(3)) for j in range(3)) for i in range(3)]
    else:
        exact = False
        s = gen.logu(rng, 1e-30, 1e30) if rng.random() < 0.5 else 1.0
        R = [tuple(rng.gauss(0, 1) * s for _ in range(3)) for _ in range(3)]
    mon.case("square", tuple(R))
    o = O(mon, exact)
    m = mk(R)
    D = det3(R)
    ab = [[abs(float(x)) for x in q] for q in R]
    perm = sum(ab[0][i] * ab[1][j] * ab[2][k] for i, j, k in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0), (1, 0, 2), (0, 2, 1)))
    o.num("determinant", mon.call("determinant", m.determinant), D, perm)
    cf = cof3(R)
    bd = []
    for i in range(3):
        I = [x for x in range(3) if x != i]
        bd.append(tuple(ab[I[0]][J[0]] * ab[I[1]][J[1]] + ab[I[0]][J[1]] * ab[I[1]][J[0]] for J in ([1, 2], [0, 2], [0, 1])))
    o.matx("cofactor", mon.call("cofactor", m.cofactor), cf, bd)
    o.matx("cofactor", mon.call("adjugate", m.adjugate), list(zip(*cf)), list(zip(*bd)))
    if D != 0 and perm < 1e8 * abs(float(D)):
        inv = mon.call("inverse", m.inverse)
        c = perm / abs(float(D))
        want = [tuple(x / D for x in r) for r in zip(*cf)]
        bound = [tuple(y / abs(float(D)) * (1 + c) for y in r) for r in zip(*bd)]
        O(mon, False).matx("inverse", inv, want, bound, 32)
        prod = mul(R, mat(inv))
        for i in range(3):
            for j in range(3):
                mon.near("inverse", float(prod[i][j]), 1.0 if i == j else 0.0, 1e-14 * (1 + c) * 30 * max(1.0, max(ab[i]) / max(min(max(q) for q in ab), 1e-300)))
    mon.check("inverse", mat(m) == list(R), "operand changed")
