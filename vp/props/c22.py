"""C22 operands survive every query, copies are equal and independent: snapshots, aliasing sanitizer, fleet ledger"""
import random
import sys
import types

from openspace.bodies.artificial import Spacecraft
from openspace.bodies.terrestrial import GroundSite
from openspace.coordinates.positions import LLA
from openspace.coordinates.states import GCRF
from openspace.math.linalg import Vector3D
from openspace.time import Epoch

from .. import gen, ops, ref

RULE = ("every operation of the catalogue (about 190 public operations of all modules) on drawn operands: bit-exact pictures of all operands and of all module and class constants before and "
        "after the call, then operands are scrambled in place while the result is watched and the result is scrambled while the operands are watched; plus random programs over fleets "
        "of spacecraft in all modes with bystanders, initial states, arguments and returned objects watched after every step; non-trivial when the operands are new")
ASSUMPTIONS = ["a filter drives the propagator it is given and a spacecraft keeps a live reference to its target: both are references by design",
               "attributes starting with an underscore and dictionaries are treated as private caches", "matrices are treated as values and not scrambled"]
SKIP = ("tracked_target",)


def run(mon, rng, tier, worker, workers):
    mon.need("operands-unchanged", "bystander-operands", "result-own-copy", "operands-own-copy", "constants", "copy-equal", "fleet-bystanders", "fleet-initial-state", "fleet-query",
             "fleet-returned", "fleet-arguments", "result-not-shared", "same-object-twice", "built-from")
    base = constants()
    mon.stat("constants_watched", len(base))
    rounds = 20 if tier == "quick" else 120
    for _ in range(rounds):
        todo = list(ops.OPS)
        rng.shuffle(todo)
        for o in todo:
            mon.run_case(one_op, mon, rng, o)
            if rng.random() < 0.15:
                watch_constants(mon, base)
    for _ in range((2400 if tier == "quick" else 20000) // workers):
        mon.run_case(fleet, mon, rng, base)
    for _ in range((8000 if tier == "quick" else 40000) // workers):
        mon.run_case(copies, mon, rng)
        mon.run_case(built_from, mon, rng)
    watch_constants(mon, base)
    mon.stat("operations_in_catalogue", len(ops.OPS))


# ---- module and class constants ---------------------------------------------------------------------------
def constants():
    out = {}
    for name, m in sorted(sys.modules.items()):
        if name.split(".")[0] != "openspace" or m is None:
            continue
        for k, v in vars(m).items():
            if k.startswith("_") or isinstance(v, (types.ModuleType, types.FunctionType, types.BuiltinFunctionType)):
                continue
            if isinstance(v, type):
                if v.__module__ != name:
                    continue
                for kk, vv in vars(v).items():
                    if not kk.startswith("_") and not callable(vv) and not isinstance(vv, (staticmethod, classmethod, property, type, dict, set)):
                        out["%s.%s.%s" % (name, k, kk)] = ops.freeze(vv)
            elif isinstance(v, (int, float, str, list, tuple)) or ops.is_ours(v):
                out["%s.%s" % (name, k)] = ops.freeze(v)
    return out


def watch_constants(mon, base):
    now = constants()
    mon.obs["constants"] += len(base)
    for k, v in base.items():
        if k in now and now[k] != v:
            mon.violate("constants", "constant %s changed: %s" % (k, ops.diff(v, now[k])))
            base[k] = now[k]


# ---- in-place scrambling of everything a caller can reach ---------------------------------------------------
VALUES = {"Epoch", "Vector3D", "Vector6D", "LLA", "SphericalPosition", "ClassicalElements", "ITRF", "HCW", "GCRF", "IJK", "SpaceObservation", "GroundObservation", "Spacecraft", "RK4", "Hill",
          "RelativeKalman", "Camera", "OpticalConstraints", "GroundSite", "Hohmann"}


def scramble(o, rng, seen=None, skip=SKIP):
    """change every public number inside o, in place; returns how many were changed"""
    seen = set() if seen is None else seen
    n = 0
    if isinstance(o, (list, tuple)):
        for x in o:
            n += scramble(x, rng, seen, skip)
        return n
    if not ops.is_ours(o) or isinstance(o, type) or type(o).__name__ not in VALUES or id(o) in seen:
        return 0
    seen.add(id(o))
    for k, v in list(ops.public(o).items()):
        if k in skip:
            continue
        if isinstance(v, bool) or isinstance(v, str):
            continue
        if isinstance(v, (int, float)):
            try:
                setattr(o, k, v * 1.5 + rng.uniform(1, 2))
                n += 1
            except AttributeError:
                pass
        else:
            n += scramble(v, rng, seen, skip)
    return n


def pic(o, skip=SKIP):
    """frozen picture without live references"""
    return drop(ops.freeze(o), skip)


def drop(fz, skip):
    if isinstance(fz, tuple):
        return tuple(drop(x, skip) for x in fz if not (isinstance(x, tuple) and len(x) == 2 and x[0] in skip))
    return fz


def one_op(mon, rng, o):
    descs = o.descs(rng)
    mon.case(o.name, descs)
    objs = [ops.build(d) for d in descs]
    if len(objs) >= 2 and isinstance(descs[0], tuple) and isinstance(descs[1], tuple) and descs[0][0] == descs[1][0] and descs[0][0] in ("V3", "V6", "M3", "M6") and rng.random() < 0.3:
        objs[1] = objs[0]
        mon.obs["same-object-twice"] += 1
    before = [ops.freeze(x) for x in objs]
    seed = rng.randrange(10 ** 6)
    state = random.getstate()
    res = mon.call(o.name, ops.execute, o.name, objs, seed)
    random.setstate(state)
    for i, x in enumerate(objs):
        if i in o.mutates:
            continue
        now = ops.freeze(x)
        mon.check("bystander-operands" if o.mutates else "operands-unchanged", now == before[i], "%s changed its operand %d: %s" % (o.name, i, ops.diff(before[i], now)))
    skip = SKIP + (("propagator", "filter") if o.name == "RelativeKalman" else ())
    # scramble what was passed in: neither the result nor the commanded object may notice
    free = [x for i, x in enumerate(objs) if i not in o.mutates]
    kept = [x for i, x in enumerate(objs) if i in o.mutates]
    watched = [res] + kept
    pics = [pic(x, skip) for x in watched]
    if sum(scramble(x, rng, None, skip) for x in free):
        now = [pic(x, skip) for x in watched]
        mon.check("result-own-copy", now == pics, "%s keeps a reference to its operand: %s" % (o.name, ops.diff(("seq",) + tuple(pics), ("seq",) + tuple(now))))
    # scramble what came back: the operands may not notice, nor may the next caller who asks the same
    pics = [pic(x, skip) for x in objs]
    first = pic(res, skip)
    if scramble(res, rng, None, skip):
        if not o.mutates and rng.random() < 0.5:
            again = [ops.build(d) for d in descs]
            if objs[1:] and objs[1] is objs[0]:
                again[1] = again[0]
            res2 = mon.call(o.name, ops.execute, o.name, again, seed)
            random.setstate(state)
            mon.check("result-not-shared", pic(res2, skip) == first, "%s hands out one object to two callers: %s" % (o.name, ops.diff(first, pic(res2, skip))))
        now = [pic(x, skip) for x in objs]
        mon.check("operands-own-copy", now == pics, "%s returned part of its operand: %s" % (o.name, ops.diff(("seq",) + tuple(pics), ("seq",) + tuple(now))))


# ---- copies -------------------------------------------------------------------------------------------------
COPYABLE = (ops.d_ep, ops.d_v3, ops.d_v6, ops.d_lla, ops.d_itrf, ops.d_ijk, ops.d_hcw, ops.d_gcrf, ops.d_gcrf)


def stretch(x, rng):
    """any numbers whatsoever may be copied"""
    for k, v in sorted(ops.public(x).items()):
        if k == "vector":
            continue
        if ops.is_ours(v):
            stretch(v, rng)
        elif isinstance(v, float) and rng.random() < 0.7:
            setattr(x, k, rng.choice([v * 10 ** rng.uniform(-12, 12), 0.0, 1.0, float(rng.randint(-10, 10))]))
    if hasattr(x, "vector"):
        for k, o, a in zip(("x", "y", "z", "vx", "vy", "vz"), (x.position,) * 3 + (x.velocity,) * 3, "xyzxyz"):
            setattr(x.vector, k, getattr(o, a))


def copies(mon, rng):
    d = rng.choice(COPYABLE)(rng)
    mon.case("copy", d)
    x = ops.build(d)
    if rng.random() < 0.6:
        stretch(x, rng)
    a = ops.freeze(x)
    y = mon.call("copy", x.copy)
    b = ops.freeze(y)
    mon.check("copy-equal", type(y) is type(x), "copy of %s is a %s" % (type(x).__name__, type(y).__name__))
    if a != b and isinstance(x, GCRF) and drop(a, ("srp_scalar",)) == drop(b, ("srp_scalar",)) and y.srp_scalar == 0:
        if "gcrf-copy-drops-srp" not in mon.known:
            mon.known.append("gcrf-copy-drops-srp")
    else:
        mon.check("copy-equal", a == b, "copy differs: %s" % ops.diff(a, b))
    scramble(y, rng)
    mon.check("operands-own-copy", ops.freeze(x) == a, "modifying a copy changed the original")
    y = x.copy()
    b = ops.freeze(y)
    scramble(x, rng)
    mon.check("result-own-copy", ops.freeze(y) == b, "modifying the original changed its copy")


def built_from(mon, rng):
    """a spacecraft, propagator, filter or observation starts from exactly what it was given, in its own copy"""
    d = ops.d_gcrf(rng)
    mon.case("built-from", d)
    g = ops.build(d)
    want = (g.epoch.value, ops.freeze(g.position), ops.freeze(g.velocity), g.use_perturbations)

    def same(kind, s):
        got = (s.epoch.value, ops.freeze(s.position), ops.freeze(s.velocity), s.use_perturbations)
        mon.check("built-from", got == want, "%s does not hold the state it was given: %r" % (kind, got))

    sc = mon.call("Spacecraft", Spacecraft, g)
    ob = mon.call("SpaceObservation", ops.SpaceObservation, g, Vector3D(1.0, 2.0, 3.0), 0.1, 1e-5)
    rk = mon.call("RK4", ops.RK4, g)
    scramble(g, rng)
    for kind, s in (("Spacecraft", sc.propagator.state), ("Spacecraft.initial_state", sc.initial_state), ("current_state", sc.current_state()), ("SpaceObservation", ob.observer_state), ("RK4", rk.state)):
        same(kind, s)
    # the three records of a spacecraft's state are separate objects
    for name in ("initial_state", "current"):
        x = sc.initial_state if name == "initial_state" else sc.current_state()
        mark = ops.freeze(sc.propagator)
        scramble(x, rng)
        mon.check("operands-own-copy", ops.freeze(sc.propagator) == mark, "modifying the %s changed the propagator" % name)
    mark = ops.freeze(sc.initial_state)
    scramble(sc.propagator.state, rng)
    mon.check("operands-own-copy", ops.freeze(sc.initial_state) == mark, "modifying the propagated state changed the initial state")


# ---- fleets -------------------------------------------------------------------------------------------------
QUERIES0 = ("area", "srp_scalar", "total_mass", "sma", "velocity", "position", "sun_vector", "moon_vector", "earth_vector", "current_state", "current_epoch")
QUERIES1 = ("detect", "visual_magnitude", "sun_angle", "moon_angle", "earth_angle", "range", "target_vector", "hill_position", "observe_wfov", "observe_nfov")


def fleet(mon, rng, base):
    t = gen.epoch(rng)
    r, v = gen.rv(rng)
    n = rng.randint(2, 4)
    starts = [(t, r, v)]
    for _ in range(n - 1):
        starts.append((t if rng.random() < 0.7 else t + rng.uniform(-0.005, 0.005),) + gen.bound_nearby(rng, r, v, 1, 800))
    seed = rng.randrange(10 ** 9)
    mon.case("fleet", tuple(starts), seed)
    p = random.Random(seed)
    fl = [mon.call("Spacecraft", Spacecraft, GCRF(Epoch(a), Vector3D(*b), Vector3D(*c))) for a, b, c in starts]
    site = GroundSite(LLA(p.uniform(-1.4, 1.4), p.uniform(0, 6.2), 0.1))
    tracked = [None] * n
    filtered = [False] * n
    first = [ops.freeze(s.initial_state) for s in fl]

    def chain(i):
        out = [i]
        while tracked[out[-1]] is not None and fl[out[-1]].steering == "target" and tracked[out[-1]] not in out:
            out.append(tracked[out[-1]])
        return out

    def own(i):
        return pic(fl[i])

    for _ in range(gen.length(p, 5, 14, 5)):
        i = p.randrange(n)
        j = p.choice([k for k in range(n) if k != i])
        pics = [own(k) for k in range(n)]
        spic = ops.freeze(site)
        if p.random() < 0.45:
            # ---- queries: nobody changes, and what they return is the caller's own
            if p.random() < 0.5:
                name = p.choice(QUERIES0)
                res = mon.call(name, getattr(fl[i], name))
            elif p.random() < 0.2:
                name = "angles_and_range"
                res = mon.call(name, site.angles_and_range, fl[i])
            else:
                name = p.choice(QUERIES1)
                try:
                    res = getattr(fl[i], name)(fl[j])
                except (ValueError, ZeroDivisionError):
                    res = None  # e.g. the magnitude of an unlit target; judged elsewhere
            now = [own(k) for k in range(n)]
            mon.check("fleet-query", now == pics and ops.freeze(site) == spic, "query %s changed a spacecraft: %s" % (name, ops.diff(("seq",) + tuple(pics), ("seq",) + tuple(now))))
            if scramble(res, p):
                now = [own(k) for k in range(n)]
                mon.check("fleet-returned", now == pics and ops.freeze(site) == spic, "modifying what %s returned changed a spacecraft: %s" % (
                    name, ops.diff(("seq",) + tuple(pics), ("seq",) + tuple(now))))
            continue
        # ---- commands: only the commanded spacecraft and those it brings along change
        args = []
        name = p.choice(["step", "step_to_epoch", "step_to_epoch", "impulsive", "finite", "lvlh", "sun", "track", "acquire", "process", "update"])
        s = fl[i]
        may = set(chain(i))
        if name == "step":
            mon.call(name, s.step)
        elif name == "step_to_epoch":
            args = [Epoch(s.propagator.state.epoch.value + gen.leap(p, -0.004, 0.008))]
            mon.call(name, s.step_to_epoch, *args)
        elif name == "impulsive":
            args = [Vector3D(*gen.burn3(p, 0.003))]
            mon.call(name, s.impulsive_maneuver, *args)
        elif name == "finite":
            args = [Vector3D(*gen.burn3(p, 0.001))]
            mon.call(name, s.finite_maneuver, *args)
        elif name == "lvlh":
            mon.call(name, s.track_lvlh)
        elif name == "sun":
            mon.call(name, s.track_sun)
        elif name in ("track", "acquire"):
            if i in chain(j):
                continue  # no tracking rings
            may |= set(chain(j))
            mon.call(name, s.track_state if name == "track" else s.acquire, fl[j])
            tracked[i] = j
            filtered[i] = filtered[i] or name == "acquire"
        elif name == "process":
            if not filtered[i] or tracked[i] is None:
                continue
            mon.call(name, s.process_wfov, fl[tracked[i]])
        else:
            mon.call(name, s.update_attitude)
        now = [own(k) for k in range(n)]
        for k in range(n):
            if k not in may:
                mon.check("fleet-bystanders", now[k] == pics[k], "%s on spacecraft %d changed spacecraft %d: %s" % (name, i, k, ops.diff(pics[k], now[k])))
            mon.check("fleet-initial-state", ops.freeze(fl[k].initial_state) == first[k], "%s changed the initial state of spacecraft %d: %s" % (
                name, k, ops.diff(first[k], ops.freeze(fl[k].initial_state))))
        # a target brought along only advances: mass, mode and settings stay
        for k in may - {i}:
            a, b = pics[k], now[k]
            mon.check("fleet-bystanders", side(a) == side(b), "%s on spacecraft %d changed settings of its target: %s" % (name, i, ops.diff(side(a), side(b))))
        if scramble(args, p):
            after = [own(k) for k in range(n)]
            mon.check("fleet-arguments", after == now, "modifying the argument of %s afterwards changed a spacecraft: %s" % (name, ops.diff(("seq",) + tuple(now), ("seq",) + tuple(after))))
    watch_constants(mon, base)


def side(fz):
    return drop(fz, ("state", "body_x", "body_y", "body_z", "slewing"))
