"""Independent reference model of the guarantees openspace exists to provide.

Nothing here imports openspace: every formula is written again, in a different form where one exists
(rotation products instead of expanded matrices, Cunningham recursion instead of Legendre partials,
atan2 angles instead of arc cosines), from the textbooks the package cites (Montenbruck & Gill,
"Satellite Orbits"; Vallado, "Fundamentals of Astrodynamics").  Vectors are tuples, matrices tuples
of rows, epochs plain MJD floats, angles radians, lengths km, times s unless stated.
"""
import math
from functools import lru_cache

PI = math.pi
TWO_PI = 2 * math.pi
MU = 398600.4418
RE = 6378.137
FLAT = 1 / 298.2572235
MU_SUN = 1.327124400419e11
MU_MOON = 4902.800305555
SRP_P = 4.56e-6
G0 = 0.00981
DAY = 86400.0
SIDEREAL_DAY = 86164.090518
TT_UTC = 69.184
EPS0 = math.radians(23.43929111)
ARCSEC = math.pi / 180 / 3600


# ---- vectors ---------------------------------------------------------------------------------------
def add(a, b):
    return tuple(x + y for x, y in zip(a, b))


def sub(a, b):
    return tuple(x - y for x, y in zip(a, b))


def scale(a, k):
    return tuple(x * k for x in a)


def dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def norm(a):
    return math.hypot(*a)


def unit(a):
    n = norm(a)
    return tuple(x / n for x in a)


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def angle(a, b):
    """accurate for every angle, unlike the arc cosine"""
    a, b = unit(a), unit(b)
    return math.atan2(norm(cross(a, b)), dot(a, b))


def mv(m, v):
    return tuple(dot(r, v) for r in m)


def mm(a, b):
    bt = list(zip(*b))
    return tuple(tuple(dot(r, c) for c in bt) for r in a)


def tr(m):
    return tuple(zip(*m))


def rot1(t):
    c, s = math.cos(t), math.sin(t)
    return ((1, 0, 0), (0, c, s), (0, -s, c))


def rot2(t):
    c, s = math.cos(t), math.sin(t)
    return ((c, 0, -s), (0, 1, 0), (s, 0, c))


def rot3(t):
    c, s = math.cos(t), math.sin(t)
    return ((c, s, 0), (-s, c, 0), (0, 0, 1))


def rodrigues(v, axis, theta):
    k = unit(axis)
    c, s = math.cos(theta), math.sin(theta)
    kv = cross(k, v)
    kd = dot(k, v)
    # 1 - cos through the half angle
    h = 2 * math.sin(theta / 2) ** 2
    return tuple(v[i] * c + kv[i] * s + k[i] * kd * h for i in range(3))


def perp(v):
    """an orthonormal pair spanning the plane perpendicular to v"""
    u = unit(v)
    a = (1.0, 0.0, 0.0) if abs(u[0]) < 0.7 else (0.0, 1.0, 0.0)
    e1 = unit(cross(u, a))
    return e1, cross(u, e1)


# ---- time ------------------------------------------------------------------------------------------
def jd(mjd):
    return mjd + 2400000.5


def centuries(mjd):
    return (mjd - 51544.5) / 36525.0


def gmst(mjd_tt):
    """Greenwich mean sidereal time (radians) of a terrestrial-time MJD, 0h-UTC polynomial plus day fraction"""
    utc = mjd_tt - TT_UTC / DAY
    day = math.floor(utc)
    frac = utc - day
    t = (day - 51544.5) / 36525.0
    deg = 100.4606184 + 36000.77004 * t + 0.000387933 * t * t + 360.98564724 * frac
    return math.radians(deg % 360.0)


def gmst_iau82(mjd_tt):
    """the same quantity from the IAU 1982 instant formula (seconds of time), a second opinion"""
    utc = mjd_tt - TT_UTC / DAY
    t = (utc - 51544.5) / 36525.0
    s = 67310.54841 + (876600.0 * 3600 + 8640184.812866) * t + 0.093104 * t * t - 6.2e-6 * t ** 3
    return (s % 86400.0) / 86400.0 * TWO_PI


# ---- frames ----------------------------------------------------------------------------------------
def obliquity(mjd):
    t = centuries(mjd)
    return EPS0 + ARCSEC * (-46.815 * t - 0.00059 * t * t + 0.001813 * t ** 3)


def precession(mjd):
    t = centuries(mjd)
    zeta = ARCSEC * (2306.2181 * t + 0.30188 * t * t + 0.017998 * t ** 3)
    theta = ARCSEC * (2004.3109 * t - 0.42665 * t * t - 0.041833 * t ** 3)
    z = zeta + ARCSEC * (0.7928 * t * t + 0.000205 * t ** 3)
    return mm(rot3(-z), mm(rot2(theta), rot3(-zeta)))


def nutation_angles(mjd):
    d = mjd - 51544.5
    a1 = math.radians(125.0 - 0.05295 * d)
    a2 = math.radians(200.9 + 1.97129 * d)
    dpsi = math.radians(-0.0048 * math.sin(a1) - 0.0004 * math.sin(a2))
    deps = math.radians(0.0026 * math.cos(a1) + 0.0002 * math.cos(a2))
    return dpsi, deps


def nutation(mjd):
    dpsi, deps = nutation_angles(mjd)
    e = obliquity(mjd)
    x, y, z = deps, -dpsi * math.sin(e), dpsi * math.cos(e)  # small rotation vector
    return ((1.0, -z, y), (z, 1.0, -x), (-y, x, 1.0))


def earth_rotation(mjd):
    dpsi, _ = nutation_angles(mjd)
    return rot3(gmst(mjd) + dpsi * math.cos(obliquity(mjd)))


def gcrf_to_itrf_matrix(mjd):
    return mm(earth_rotation(mjd), mm(nutation(mjd), precession(mjd)))


@lru_cache(maxsize=64)
def _itrf_cached(mjd):
    return gcrf_to_itrf_matrix(mjd)


def gcrf_to_itrf(p, mjd):
    return mv(_itrf_cached(mjd), p)


def itrf_to_gcrf(p, mjd):
    return mv(tr(_itrf_cached(mjd)), p)


def itrf_to_ijk(p, mjd):
    return mv(tr(rot3(gmst(mjd))), p)


# ---- geodesy ---------------------------------------------------------------------------------------
E2 = FLAT * (2 - FLAT)


def lla_to_itrf(lat, lon, alt):
    n = RE / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return ((n + alt) * math.cos(lat) * math.cos(lon), (n + alt) * math.cos(lat) * math.sin(lon),
            (n * (1 - E2) + alt) * math.sin(lat))


def enz_axes(lat, lon):
    e = (-math.sin(lon), math.cos(lon), 0.0)
    z = (math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat))
    return (e, cross(z, e), z)


def lat_tolerance(p, lat):
    """how well double precision knows the latitude of this point: a few units in the last place of its coordinates"""
    return 2e-14


# ---- Sun and Moon ----------------------------------------------------------------------------------
def sun(mjd):
    t = centuries(mjd)
    m = math.radians(357.5256 + 35999.049 * t)
    lam = math.radians(282.94) + m + ARCSEC * (6892 * math.sin(m) + 72 * math.sin(2 * m))
    r = 1e6 * (149.619 - 2.499 * math.cos(m) - 0.021 * math.cos(2 * m))
    return mv(rot1(-EPS0), (r * math.cos(lam), r * math.sin(lam), 0.0))


LON = [(22640, 1, 0, 0, 0), (769, 2, 0, 0, 0), (-4586, 1, 0, 0, -2), (2370, 0, 0, 0, 2), (-668, 0, 1, 0, 0),
       (-412, 0, 0, 2, 0), (-212, 2, 0, 0, -2), (-206, 1, 1, 0, -2), (192, 1, 0, 0, 2), (-165, 0, 1, 0, -2),
       (148, 1, -1, 0, 0), (-125, 0, 0, 0, 1), (-110, 1, 1, 0, 0), (-55, 0, 0, 2, -2)]
LAT = [(-526, 0, 0, 1, -2), (44, 1, 0, 1, -2), (-31, -1, 0, 1, -2), (-25, -2, 0, 1, 0), (-23, 0, 1, 1, -2),
       (21, -1, 0, 1, 0), (11, 0, -1, 1, -2)]
RAD = [(-20905, 1, 0, 0, 0), (-3699, -1, 0, 0, 2), (-2956, 0, 0, 0, 2), (-570, 2, 0, 0, 0), (246, 2, 0, 0, -2),
       (-205, 0, 1, 0, -2), (-171, 1, 0, 0, 2), (-152, 1, 1, 0, -2)]


def moon_ecliptic(mjd):
    t = centuries(mjd)
    l0 = math.radians(218.31617 + (481267.88088 - 1.3972) * t)
    arg = [math.radians(x) for x in (134.96292 + 477198.86753 * t, 357.52543 + 35999.04944 * t,
                                     93.27283 + 483202.01873 * t, 297.85027 + 445267.11135 * t)]

    def series(rows, fn):
        return math.fsum(row[0] * fn(math.fsum(k * a for k, a in zip(row[1:], arg))) for row in rows)

    dlam = ARCSEC * series(LON, math.sin)
    f, lp = arg[2], arg[1]
    inner = f + dlam + ARCSEC * (412 * math.sin(2 * f) + 541 * math.sin(lp))
    beta = ARCSEC * (18520 * math.sin(inner) + series(LAT, math.sin))
    r = 385000.0 + series(RAD, math.cos)
    return l0 + dlam, beta, r


def moon(mjd):
    lam, beta, r = moon_ecliptic(mjd)
    p = (r * math.cos(lam) * math.cos(beta), r * math.sin(lam) * math.cos(beta), r * math.sin(beta))
    return mv(rot1(-EPS0), p)


# ---- force model -----------------------------------------------------------------------------------
# fully normalised EGM coefficients (degree, order): (C, S)
NORMALISED = {
    (2, 0): (-0.484165143790815e-3, 0.0), (2, 1): (-0.206615509074176e-9, 0.138441389137979e-8),
    (2, 2): (0.243938357328313e-5, -0.140027370385934e-5), (3, 0): (0.957161207093473e-6, 0.0),
    (3, 1): (0.203046201047864e-5, 0.248200415856872e-6), (3, 2): (0.904787894809528e-6, -0.619005475177618e-6),
    (3, 3): (0.721321757121568e-6, 0.141434926192941e-5), (4, 0): (0.539965866638991e-6, 0.0),
    (4, 1): (-0.536157389388867e-6, -0.473567346518086e-6), (4, 2): (0.350501623962649e-6, 0.662480026275829e-6),
    (4, 3): (0.990856766672321e-6, -0.200956723567452e-6), (4, 4): (-0.188519633023033e-6, 0.308803882149194e-6)}
CS = {}
for (_n, _m), (_c, _s) in NORMALISED.items():
    _k = math.sqrt((1 if _m == 0 else 2) * (2 * _n + 1) * math.factorial(_n - _m) / math.factorial(_n + _m))
    CS[_n, _m] = (_c * _k, _s * _k)


def legendre(n, m, phi):
    """associated Legendre function (no Condon-Shortley phase) by the defining sum, argument sin(phi)"""
    x, c = math.sin(phi), math.cos(phi)
    s = 0.0
    for k in range((n - m) // 2 + 1):
        s += ((-1) ** k * math.factorial(2 * n - 2 * k)
              / (math.factorial(k) * math.factorial(n - k) * math.factorial(n - m - 2 * k)) * x ** (n - m - 2 * k))
    return s / 2 ** n * c ** m


def geopotential_fixed(p):
    """acceleration beyond the point mass in the Earth-fixed frame: Cunningham V/W recursion (M&G 3.2.4-3.2.5)"""
    x, y, z = p
    r2 = x * x + y * y + z * z
    rho = RE * RE / r2
    x0, y0, z0 = RE * x / r2, RE * y / r2, RE * z / r2
    N = 6
    V = [[0.0] * (N + 1) for _ in range(N + 1)]
    W = [[0.0] * (N + 1) for _ in range(N + 1)]
    V[0][0] = RE / math.sqrt(r2)
    for m in range(N + 1):
        if m:
            V[m][m] = (2 * m - 1) * (x0 * V[m - 1][m - 1] - y0 * W[m - 1][m - 1])
            W[m][m] = (2 * m - 1) * (x0 * W[m - 1][m - 1] + y0 * V[m - 1][m - 1])
        for n in range(m + 1, N + 1):
            V[n][m] = (2 * n - 1) / (n - m) * z0 * V[n - 1][m] - ((n + m - 1) / (n - m) * rho * V[n - 2][m] if n >= 2 else 0.0)
            W[n][m] = (2 * n - 1) / (n - m) * z0 * W[n - 1][m] - ((n + m - 1) / (n - m) * rho * W[n - 2][m] if n >= 2 else 0.0)
    ax = ay = az = 0.0
    for (n, m), (C, S) in CS.items():
        if m == 0:
            ax -= C * V[n + 1][1]
            ay -= C * W[n + 1][1]
        else:
            f = (n - m + 2) * (n - m + 1)
            ax += 0.5 * ((-C * V[n + 1][m + 1] - S * W[n + 1][m + 1]) + f * (C * V[n + 1][m - 1] + S * W[n + 1][m - 1]))
            ay += 0.5 * ((-C * W[n + 1][m + 1] + S * V[n + 1][m + 1]) + f * (-C * W[n + 1][m - 1] + S * V[n + 1][m - 1]))
        az += (n - m + 1) * (-C * V[n + 1][m] - S * W[n + 1][m])
    k = MU / (RE * RE)
    return (k * ax, k * ay, k * az)


def acc_geopotential(p, mjd):
    m = _itrf_cached(mjd)
    return mv(tr(m), geopotential_fixed(mv(m, p)))


def acc_point(p):
    return scale(p, -MU / norm(p) ** 3)


@lru_cache(maxsize=64)
def _sun_cached(mjd):
    return sun(mjd)


@lru_cache(maxsize=64)
def _moon_cached(mjd):
    return moon(mjd)


def third_body(p, s, mu):
    d = sub(s, p)
    dn, sn = norm(d), norm(s)
    return tuple(mu * (a / dn ** 3 - b / sn ** 3) for a, b in zip(d, s))


def acc_srp(p, mjd, srp):
    return scale(unit(sub(_sun_cached(mjd), p)), -SRP_P * srp / 1000.0)


def acceleration(p, mjd, pert=True, srp=0.0, thrust=(0.0, 0.0, 0.0)):
    a = add(acc_point(p), thrust)
    if pert:
        a = add(a, third_body(p, _sun_cached(mjd), MU_SUN))
        a = add(a, third_body(p, _moon_cached(mjd), MU_MOON))
        a = add(a, acc_geopotential(p, mjd))
        if srp:
            a = add(a, acc_srp(p, mjd, srp))
    return a


def rk4_step(mjd, r, v, h, pert=True, thrust=None, srp=0.0):
    """one classical step; thrust(dt) is the thrust acceleration dt seconds into this step"""
    T = thrust or (lambda dt: (0.0, 0.0, 0.0))
    half = mjd + h / 2 / DAY
    end = mjd + h / DAY
    k1v, k1a = v, acceleration(r, mjd, pert, srp, T(0.0))
    r2, v2 = add(r, scale(k1v, h / 2)), add(v, scale(k1a, h / 2))
    k2v, k2a = v2, acceleration(r2, half, pert, srp, T(h / 2))
    r3, v3 = add(r, scale(k2v, h / 2)), add(v, scale(k2a, h / 2))
    k3v, k3a = v3, acceleration(r3, half, pert, srp, T(h / 2))
    r4, v4 = add(r, scale(k3v, h)), add(v, scale(k3a, h))
    k4v, k4a = v4, acceleration(r4, end, pert, srp, T(h))
    rn = tuple(r[i] + h / 6 * (k1v[i] + 2 * k2v[i] + 2 * k3v[i] + k4v[i]) for i in range(3))
    vn = tuple(v[i] + h / 6 * (k1a[i] + 2 * k2a[i] + 2 * k3a[i] + k4a[i]) for i in range(3))
    return end, rn, vn


def step_counts(dt, max_step=300.0):
    """equal steps of at most max_step; both answers when dt is a whole number of them to rounding"""
    q = abs(dt) / max_step
    n = math.ceil(q)
    near = round(q)
    if abs(q - near) < 1e-6:
        return sorted({c for c in (near, near + 1) if c > 0} | ({0} if near == 0 else set()))
    return [n]


def propagate(mjd, r, v, target, pert=True, n=None):
    dt = (target - mjd) * DAY
    if n is None:
        n = step_counts(dt)[0]
    if n == 0:
        return mjd, r, v
    h = dt / n
    t = mjd
    for _ in range(n):
        t, r, v = rk4_step(t, r, v, h, pert)
    return t, r, v


def burn_duration(dv, m_dot, m0, isp):
    return -math.expm1(-dv / (isp * G0)) * m0 / m_dot


def propagate_burn(mjd, r, v, direction, dv, m_dot, m0, isp, pert=True, n=None):
    dur = burn_duration(dv, m_dot, m0, isp)
    if n is None:
        n = step_counts(dur)[0]
    if n == 0:
        return mjd, r, v, dur
    h = dur / n
    u = unit(direction)
    t = mjd
    for k in range(n):
        def thrust(dt, k=k):
            return scale(u, m_dot * isp * G0 / (m0 - m_dot * (k * h + dt)))
        t, r, v = rk4_step(t, r, v, h, pert, thrust)
    return t, r, v, dur


# ---- two-body --------------------------------------------------------------------------------------
def kepler_E(M, e):
    """eccentric anomaly by bisection then Newton; E congruent to M's turn"""
    turns = math.floor((M + PI) / TWO_PI)
    m = M - turns * TWO_PI
    lo, hi = -PI - 1e-9, PI + 1e-9
    for _ in range(60):
        mid = 0.5 * (lo + hi)
        if mid - e * math.sin(mid) < m:
            lo = mid
        else:
            hi = mid
    E = 0.5 * (lo + hi)
    for _ in range(2):
        E -= (E - e * math.sin(E) - m) / (1 - e * math.cos(E))
    return E + turns * TWO_PI


def perifocal(i, raan, w):
    """rows: perigee, semilatus rectum, normal directions in inertial axes"""
    return mm(rot3(w), mm(rot1(i), rot3(raan)))


def elements_to_rv(a, e, i, raan, w, M, mu=MU):
    E = kepler_E(M, e)
    q = perifocal(i, raan, w)
    cE, sE = math.cos(E), math.sin(E)
    s = math.sqrt((1 - e) * (1 + e))
    r = a * (1 - e * cE)
    k = math.sqrt(mu * a) / r
    rp = add(scale(q[0], a * (cE - e)), scale(q[1], a * s * sE))
    vp = add(scale(q[0], -k * sE), scale(q[1], k * s * cE))
    return rp, vp


def kepler_propagate(r, v, dt, mu=MU):
    """exact two-body motion by universal variables (bound orbits)"""
    r0, v0 = norm(r), norm(v)
    alpha = 2 / r0 - v0 * v0 / mu
    a = 1 / alpha
    n = math.sqrt(mu * alpha ** 3)
    sig = dot(r, v) / math.sqrt(mu)
    ec, es = 1 - r0 * alpha, sig * math.sqrt(alpha)
    # Kepler's equation in the change of eccentric anomaly
    M = n * dt
    x = M
    f = lambda x: x - ec * math.sin(x) + es * (1 - math.cos(x)) - M  # noqa: E731
    lo, hi = M - 2.5, M + 2.5
    for _ in range(70):
        mid = 0.5 * (lo + hi)
        if f(mid) < 0:
            lo = mid
        else:
            hi = mid
    x = 0.5 * (lo + hi)
    for _ in range(2):
        x -= f(x) / (1 - ec * math.cos(x) + es * math.sin(x))
    F = 1 - a / r0 * (1 - math.cos(x))
    G = dt + (math.sin(x) - x) / n
    rn = add(scale(r, F), scale(v, G))
    rr = norm(rn)
    Fd = -math.sqrt(mu * a) / (rr * r0) * math.sin(x)
    Gd = 1 - a / rr * (1 - math.cos(x))
    return rn, add(scale(r, Fd), scale(v, Gd))


# ---- relative motion -------------------------------------------------------------------------------
def ric(r, v):
    """rows: radial, in-track, cross-track"""
    c = unit(cross(r, v))
    u = unit(r)
    return (u, cross(c, u), c)


def to_hcw(ro, vo, r, v):
    """curvilinear relative state of (r, v) about (ro, vo): arcs scaled by the origin radius and their rates"""
    m = ric(ro, vo)
    q, w, wo = mv(m, r), mv(m, v), mv(m, vo)
    d = norm(ro)
    rr = norm(r)
    rho2 = q[0] ** 2 + q[1] ** 2
    rho = math.sqrt(rho2)
    lam = math.atan2(q[1], q[0])
    phi = math.atan2(q[2], rho)
    rdot = dot(q, w) / rr
    lamdot = (q[0] * w[1] - q[1] * w[0]) / rho2
    phidot = (w[2] * rho2 - q[2] * (q[0] * w[0] + q[1] * w[1])) / (rho * rr * rr)
    rodot = wo[0]
    lodot = wo[1] / d
    return ((rr - d, lam * d, phi * d), (rdot - rodot, d * (lamdot - lodot), d * phidot))


def from_hcw(x, xd, ro, vo):
    m = ric(ro, vo)
    wo = mv(m, vo)
    d = norm(ro)
    rr = d + x[0]
    lam, phi = x[1] / d, x[2] / d
    rd, ld, pd = xd[0] + wo[0], xd[1] / d + wo[1] / d, xd[2] / d
    cl, sl, cp, sp = math.cos(lam), math.sin(lam), math.cos(phi), math.sin(phi)
    q = (rr * cp * cl, rr * cp * sl, rr * sp)
    w = (rd * cp * cl - rr * pd * sp * cl - rr * ld * cp * sl,
         rd * cp * sl - rr * pd * sp * sl + rr * ld * cp * cl,
         rd * sp + rr * pd * cp)
    mt = tr(m)
    return mv(mt, q), mv(mt, w)


def hcw_propagate(x, n, t):
    """closed-form Clohessy-Wiltshire solution written per component (drift/centre form)"""
    x0, y0, z0, u0, v0, w0 = x
    s, c = math.sin(n * t), math.cos(n * t)
    k = 2 * math.sin(n * t / 2) ** 2  # 1 - cos
    xc = 4 * x0 + 2 * v0 / n  # centre of the relative ellipse
    yc = y0 - 2 * u0 / n
    A, B = -(3 * x0 + 2 * v0 / n), u0 / n
    X = xc + A * c + B * s
    U = n * (-A * s + B * c)
    Y = yc - 1.5 * n * xc * t + 2 * B * c - 2 * A * s
    Vv = -1.5 * n * xc - 2 * n * (B * s + A * c)
    Z = z0 * c + w0 / n * s
    Wv = -z0 * n * s + w0 * c
    _ = k
    return (X, Y, Z, U, Vv, Wv)


# ---- photometry ------------------------------------------------------------------------------------
def visual_magnitude(radius, albedo, dist, sun_angle):
    """diffuse sphere; sun_angle is the Sun-observer-target angle, 0 when looking sunward (unlit side)"""
    phase = math.pi - sun_angle
    f = 2 / 3 * albedo * radius ** 2 / (math.pi * dist ** 2) * (math.sin(phase) + (math.pi - phase) * math.cos(phase))
    return -26.74 - 2.5 * math.log10(f)
