"""C21 detection, photometry and camera limits: every verdict is recomputed from the reference geometry"""
import math

from openspace.bodies.artificial import Spacecraft
from openspace.coordinates.states import GCRF
from openspace.hardware.constraints import OpticalConstraints
from openspace.hardware.payloads import Camera
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import core, gen, ref

RULE = ("observer/target pairs at separations 0.05..80000 km in all steering modes, at equal and different epochs, newly built and with a past of propagation and maneuvers, with the wide camera's limits set to random values or straddling the "
        "actual geometry so that any subset of the five constraints fails (the narrow camera and the damage angle get unrelated limits); random cameras, sizes, albedos and ranges; "
        "non-trivial when the inputs are new")
ASSUMPTIONS = ["verdicts within 1e-7 rad (1e-6 mag) of a limit are not judged", "magnitude is not compared for Sun angles below 1e-3 rad (an unlit target has none)"]
vec = core.vec


def run(mon, rng, tier, worker, workers):
    mon.need("detected", "detect-moved", "undetected", "detect", "detect-default-limits", "only-sun", "only-earth", "only-moon", "only-magnitude", "only-bore", "magnitude", "brighter-larger",
             "brighter-closer", "brighter-albedo", "brighter-lit", "sun-angle", "moon-angle", "earth-angle", "range", "resolution", "resolution-linear", "range-error", "range-error-quadratic",
             "characterisation", "characterisation-resolution", "tracking-minimum", "bore-default", "defaults", "camera-modes")
    N = (64000 if tier == "quick" else 200000) // workers
    defaults(mon)
    for _ in range(N):
        mon.run_case(detection, mon, rng)
        mon.run_case(camera, mon, rng)
        if rng.random() < 0.5:
            mon.run_case(photometry, mon, rng)


def craft(mon, t, r, v):
    return mon.call("Spacecraft", Spacecraft, GCRF(Epoch(t), Vector3D(*r), Vector3D(*v)))


def angle_tol(a):
    return min(1e-7, 2e-9 + 1e-14 / max(abs(math.sin(a)), 1e-12))


def place(rng, t, r, v):
    """a target position: anywhere, nearby, or in a direction that meets the default constraints"""
    k = rng.randrange(4)
    if k == 0:
        return gen.rv(rng)
    if k == 1:
        return gen.nearby(rng, r, v, 0.05, 3000)
    s = ref.unit(ref.sub(ref.sun(t), r))
    away = ref.scale(s, -1)
    d = ref.unit(ref.add(away, ref.scale(gen.direction(rng), rng.uniform(0, 1.2))))
    return ref.add(r, ref.scale(d, gen.logu(rng, 0.1, 20000))), v


def detection(mon, rng):
    t = gen.epoch(rng)
    r, v = gen.rv(rng)
    o = craft(mon, t, r, v)
    moved = rng.random() < 0.2
    if moved:
        mon.call("history", gen.age, rng, o)
        t, r, v = gen.present(o)
    rt, vt = place(rng, t, r, v)
    tt = t if rng.random() < 0.8 else t + rng.uniform(-0.5, 0.5)
    if ref.norm(ref.sub(rt, r)) < 0.02 or ref.norm(rt) < 1000:
        return
    mode = rng.choice(["lvlh", "solar", "target", "other"])
    size, alb = gen.logu(rng, 1e-5, 0.05), rng.uniform(0.01, 1)
    mon.case("detect", t, tt, r, v, rt, vt, mode, size, alb)
    g = craft(mon, tt, rt, vt)
    if moved and ref.norm(rt) > 6000:
        mon.call("history", gen.age, rng, g)
        tt, rt, vt = gen.present(g)
        mon.obs["detect-moved"] += 1
        if ref.norm(ref.sub(rt, r)) < 0.02:
            return
    g.body_radius, g.albedo = size, alb
    o.body_radius, o.albedo = gen.logu(rng, 1e-5, 0.05), rng.uniform(0.01, 1)
    if mode == "solar":
        mon.call("track_sun", o.track_sun)
    elif mode == "target":
        if tt != t:
            g = craft(mon, t, rt, vt)
            g.body_radius, g.albedo = size, alb
        mon.call("track_state", o.track_state, g)
    elif mode == "other":
        q, w = gen.nearby(rng, rt, vt, 0.01, 500)
        if ref.norm(ref.sub(q, r)) > 0.01 and ref.norm(q) > 1000:
            mon.call("track_state", o.track_state, craft(mon, t, q, w))
    # a pointing left behind by an earlier mode must not matter either: the axis itself is what counts
    if rng.random() < 0.2:
        o.body_z = Vector3D(*gen.vec3(rng, 1, 1e4))
    z = vec(o.body_z)
    los = ref.sub(rt, r)
    sun, moon = ref.sub(ref.sun(t), r), ref.sub(ref.moon(t), r)
    a_sun, a_moon, a_earth, a_bore = ref.angle(sun, los), ref.angle(moon, los), ref.angle(ref.scale(r, -1), los), ref.angle(z, los)
    dist = ref.norm(los)
    mag = ref.visual_magnitude(size, alb, dist, a_sun) if a_sun > 1e-3 else None
    mon.near("sun-angle", mon.call("sun_angle", o.sun_angle, g), a_sun, angle_tol(a_sun))
    mon.near("moon-angle", mon.call("moon_angle", o.moon_angle, g), a_moon, angle_tol(a_moon))
    mon.near("earth-angle", mon.call("earth_angle", o.earth_angle, g), a_earth, angle_tol(a_earth))
    mon.near("range", mon.call("range", o.range, g), dist, 1e-12 * dist)
    if mag is None:
        return
    mon.near("magnitude", mon.call("visual_magnitude", o.visual_magnitude, g), mag, 1e-6 + 1e-9 / a_sun ** 3)
    mon.check("camera-modes", True)

    lim = o.wfov.limits
    # unrelated settings take arbitrary values
    n = o.nfov.limits
    n.sun_soft, n.sun_hard, n.earth, n.moon, n.vismag, n.bore = [rng.uniform(0, math.pi) for _ in range(4)] + [rng.uniform(-5, 30), rng.uniform(0, 0.2)]
    actual = {"sun": a_sun, "earth": a_earth, "moon": a_moon, "magnitude": mag, "bore": a_bore}
    how = rng.randrange(10)
    if how == 0:
        kind = "detect-default-limits"
    elif how == 1:
        kind = "detect"
        lim.sun_soft, lim.earth, lim.moon, lim.vismag, lim.bore = rng.uniform(0, 2), rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, 30), rng.uniform(0.01, math.pi)
    else:
        kind = "detect"
        names = list(actual)
        fail = set() if how < 4 else ({rng.choice(names)} if how < 9 else set(rng.sample(names, rng.randint(2, 5))))
        for k in names:
            off = gen.logu(rng, 1e-5, 1.0)
            bad = k in fail
            if k == "magnitude":
                lim.vismag = mag - off if bad else mag + off
            elif k == "bore":
                lim.bore = a_bore - off if bad else a_bore + off
            else:
                x = actual[k] + off if bad else actual[k] - off
                setattr(lim, {"sun": "sun_soft", "earth": "earth", "moon": "moon"}[k], x)
        lim.sun_hard = rng.uniform(0, math.pi)
    slack = {"sun": a_sun - lim.sun_soft, "earth": a_earth - lim.earth, "moon": a_moon - lim.moon, "magnitude": lim.vismag - mag, "bore": lim.bore - a_bore}
    if any(abs(x) < (1e-7 if k != "magnitude" else 2e-6 + 2e-9 / a_sun ** 3) for k, x in slack.items()):
        return
    failing = [k for k, x in slack.items() if x < 0]
    got = mon.call("detect", o.detect, g)
    ok = mon.check(kind, bool(got) is (not failing), "detected=%r with failing constraints %r" % (got, failing), slack=slack)
    if kind != "detect":
        mon.obs["detect"] += 1
    mon.obs["detected" if not failing else "undetected"] += 1
    if len(failing) == 1 and ok:
        mon.obs["only-" + failing[0]] += 1


def photometry(mon, rng):
    t = gen.epoch(rng)
    r, v = gen.rv(rng)
    d = gen.direction(rng)
    s = ref.unit(ref.sub(ref.sun(t), r))
    dist = gen.logu(rng, 0.1, 50000)
    size, alb = gen.logu(rng, 1e-5, 0.05), rng.uniform(0.01, 0.9)
    p = ref.add(r, ref.scale(d, dist))
    if ref.angle(d, s) < 1e-2 or ref.norm(p) < 1000:
        return
    mon.case("photometry", t, r, v, d, dist, size, alb)
    o = craft(mon, t, r, v)

    def m(p, size, alb):
        g = craft(mon, t, p, v)
        g.body_radius, g.albedo = size, alb
        return mon.call("visual_magnitude", o.visual_magnitude, g)

    base = m(p, size, alb)
    k = rng.uniform(1.001, 5)
    mon.near("brighter-larger", base - m(p, size * k, alb), 5 * math.log10(k), 1e-5)
    mon.near("brighter-albedo", base - m(p, size, min(1.0, alb * k)), 2.5 * math.log10(min(1.0, alb * k) / alb), 1e-5)
    q = ref.add(r, ref.scale(d, dist / k))
    if ref.norm(q) > 1000:
        mon.near("brighter-closer", m(q, size, alb) - base, -5 * math.log10(k), 1e-4)
    # same range, farther from the Sun's direction: more of the lit side is seen
    a = ref.angle(d, s)
    b = rng.uniform(a, math.pi)
    if b - a > 1e-2 and math.pi - a > 1e-3:
        side = ref.unit(ref.sub(d, ref.scale(s, ref.dot(d, s))))
        q = ref.add(r, ref.scale(ref.add(ref.scale(s, math.cos(b)), ref.scale(side, math.sin(b))), dist))
        if ref.norm(q) > 1000:
            mm = m(q, size, alb)
            mon.check("brighter-lit", mm < base, "a more fully lit target is not brighter", before=base, after=mm)


def camera(mon, rng):
    px, fov = rng.choice([float(rng.randint(1, 20000)), rng.randint(1, 20000), 3072, rng.uniform(1, 20000)]), gen.logu(rng, 1e-5, 1.4)
    r, d = gen.logu(rng, 1e-3, 1e6), gen.logu(rng, 1e-5, 100)
    mon.case("camera", px, fov, r, d)
    c = mon.call("Camera", Camera, px, fov)
    res = math.tan(fov) * r / (2 * px)
    mon.near("resolution", mon.call("resolution", c.resolution, r), res, 1e-12 * res)
    k = rng.uniform(0.1, 10)
    mon.near("resolution-linear", mon.call("resolution", c.resolution, k * r), k * res, 1e-12 * k * res)
    err = res * r / d
    mon.near("range-error", mon.call("range_error", c.range_error, r, d), err, 1e-12 * err)
    mon.near("range-error-quadratic", mon.call("range_error", c.range_error, k * r, d), k * k * err, 1e-12 * k * k * err)
    want = 1e-5 * 2 * px / math.tan(fov)
    mon.near("characterisation", c.limits.characterization, want, 1e-12 * want)
    mon.near("characterisation-resolution", mon.call("resolution", c.resolution, c.limits.characterization), 1e-5, 1e-16)
    tm = mon.call("tracking_minimum", c.tracking_minimum, d)
    mon.near("tracking-minimum", math.atan2(d, tm), fov, 1e-13 + 1e-12 * fov)
    mon.near("bore-default", c.limits.bore, fov, 1e-15 * fov)


def defaults(mon):
    mon.case("defaults")
    s = craft(mon, 59000.0, (7000.0, 0.0, 0.0), (0.0, 7.5, 0.0))
    for cam, deg in ((s.wfov, 5), (s.nfov, 0.125), (Camera.wfov(), 5), (Camera.nfov(), 0.125)):
        mon.near("defaults", cam.fov, math.radians(deg), 1e-15)
        mon.near("defaults", cam.pixels, 3072, 0)
        for name, want in (("sun_hard", 60), ("sun_soft", 90), ("moon", 10), ("earth", 20), ("bore", deg)):
            mon.near("defaults", getattr(cam.limits, name), math.radians(want), 1e-14)
        mon.near("defaults", cam.limits.vismag, 15, 0)
    c = OpticalConstraints(1000, 0.1)
    mon.near("defaults", c.characterization, 0.02 / math.tan(0.1), 1e-13)
    mon.near("defaults", s.body_radius, 0.005, 0)
    mon.near("defaults", s.albedo, 0.3, 0)
    # every spacecraft owns its cameras: narrowing one leaves the other's limits
    o = craft(mon, 59000.0, (7100.0, 0.0, 0.0), (0.0, 7.4, 0.0))
    s.wfov.limits.vismag = 1
    mon.near("defaults", o.wfov.limits.vismag, 15, 0)
    mon.near("defaults", Camera.wfov().limits.vismag, 15, 0)
