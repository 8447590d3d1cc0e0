"""C02 Greenwich hour angle"""
import math

from openspace.time import Epoch

from .. import gen, ref

RULE = ("random and boundary epochs of years 1-9999, mostly 1600-2500 (UTC midnights to the microsecond, J2000, whole days) and epoch pairs; "
        "non-trivial when the epoch or pair is new")
ASSUMPTIONS = ["UTC is terrestrial time minus 69.184 s at every epoch, as the package documents"]
RATE = math.radians(360.98564724)


def run(mon, rng, tier, worker, workers):
    mon.need("range", "gmst", "gmst-iau82", "uniform-rate", "midnight-continuity")
    N = (600000 if tier == "quick" else 2000000) // workers
    for i in range(N):
        mon.run_case(one, mon, rng)
    for i in range(N // 2):
        mon.run_case(pair, mon, rng)
    # every UTC midnight of 1900-2100 in turn
    for day in range(15020 + worker, 88069, workers if tier == "thorough" else workers * 3):
        mon.run_case(midnight, mon, rng, day)
    # one sidereal revolution sampled finely
    base = gen.epoch(rng)
    prev = None
    for k in range(1000):
        t = base + k / 700
        mon.case("sweep", t)
        g = mon.call("gha", Epoch(t).greenwich_hour_angle)
        if prev is not None:
            mon.angle_near("uniform-rate", g - prev, RATE / 700, 1e-8)
        prev = g


def epoch(rng):
    if rng.random() < 0.8:
        return gen.epoch(rng)
    return gen.epoch(rng, *rng.choice([(-94000.0, 234000.0), (-678575.0, 2973483.0)]))


def one(mon, rng):
    t = epoch(rng)
    mon.case("epoch", t)
    g = mon.call("gha", Epoch(t).greenwich_hour_angle)
    mon.check("range", 0 <= g <= 2 * math.pi, "hour angle %r outside [0, 2 pi)" % g)
    mon.angle_near("gmst", g, ref.gmst(t), 3e-9 * (1 + abs(ref.centuries(t)) / 5))
    if 15000 < t < 88100:
        mon.angle_near("gmst-iau82", g, ref.gmst_iau82(t), 1e-6)


def pair(mon, rng):
    t = epoch(rng)
    d = rng.choice([rng.uniform(-1, 1), rng.choice([-1, 1]) * gen.logu(rng, 1e-6, 1), rng.uniform(-30, 30)])
    mon.case("pair", t, d)
    t1 = t + d
    g0 = mon.call("gha", Epoch(t).greenwich_hour_angle)
    g1 = mon.call("gha", Epoch(t1).greenwich_hour_angle)
    T = abs(ref.centuries(t)) + 0.01
    mon.angle_near("uniform-rate", g1 - g0, RATE * (t1 - t), 1e-8 * (1 + T / 5) + 1e-8 * (1 + T) * abs(d))


def midnight(mon, rng, day):
    m = day + gen.OFFSET
    d = rng.choice([1e-8, 1e-6, 1e-4, 0.01, 0.3])
    mon.case("midnight", day, d)
    a = mon.call("gha", Epoch(m - d).greenwich_hour_angle)
    b = mon.call("gha", Epoch(m + d).greenwich_hour_angle)
    mon.angle_near("midnight-continuity", b - a, RATE * ((m + d) - (m - d)), 1e-8)
    mon.check("range", 0 <= a <= 2 * math.pi and 0 <= b <= 2 * math.pi, "outside [0, 2 pi)")
