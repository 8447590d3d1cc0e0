"""C01 calendar dates and epoch arithmetic"""
import datetime
import math
from fractions import Fraction

from openspace.time import Epoch

from .. import gen

RULE = ("every calendar day of years 1-9999 at 0h (exhaustive), plus random and boundary times of day, shifts and "
        "ordered pairs of instants; a case is non-trivial when its date, time or shift differs from all others")
MJD0 = 678576


def truth(y, mo, d, h=0, mi=0, s=0.0):
    """exact rational MJD from the standard library's proleptic Gregorian calendar"""
    day = datetime.date(y, mo, d).toordinal() - MJD0
    return Fraction(day) + Fraction(h, 24) + Fraction(mi, 1440) + Fraction(s) / 86400


def tol(x):
    return 3 * math.ulp(max(abs(float(x)), 1.0))


def rand_date(rng):
    k = rng.randrange(8)
    if k == 0:
        y = rng.choice([1600, 1700, 1800, 1900, 2000, 2100, 2200, 2400, 4, 100, 400, 1, 9999, 1582, 1858, 1970])
    elif k < 5:
        y = rng.randint(1850, 2150)
    else:
        y = rng.randint(1, 9999)
    if rng.random() < 0.4:
        m = rng.choice([1, 2, 2, 3, 12])
    else:
        m = rng.randint(1, 12)
    last = (datetime.date(y + (m == 12), m % 12 + 1, 1).toordinal() - 1 if (y, m) != (9999, 12) else datetime.date.max.toordinal())
    last = datetime.date.fromordinal(last).day
    d = rng.choice([1, last, rng.randint(1, last), rng.randint(1, last)])
    return y, m, d


def rand_time(rng):
    k = rng.randrange(8)
    if k == 0:
        return 0, 0, 0.0
    if k == 1:
        return 23, 59, rng.choice([59.0, 59.999, 59.999999])
    if k == 2:
        return rng.choice([0, 6, 12, 18]), 0, 0.0
    if k == 3:
        return rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)
    if k == 4:
        return 0, 0, gen.logu(rng, 1e-6, 59)
    return rng.randint(0, 23), rng.randint(0, 59), rng.uniform(0, 60 - 1e-9)


def run(mon, rng, tier, worker, workers):
    mon.need("whole-day-mjd", "mjd-value", "later-is-larger", "julian-date", "julian-centuries", "plus-days", "unchanged")

    mon.run_case(every_day, mon, worker, workers)
    N = (80000 if tier == "quick" else 400000) // workers
    for _ in range(N):
        mon.run_case(instant, mon, rng)
    for _ in range(N // 4):
        mon.run_case(ordered, mon, rng)
    for _ in range(N):
        mon.run_case(arithmetic, mon, rng)


def instant(mon, rng):
    y, m, d = rand_date(rng)
    h, mi, s = rand_time(rng)
    mon.case("instant", y, m, d, h, mi, s)
    e = mon.call("from_gregorian", Epoch.from_gregorian, y, m, d, h, mi, s)
    t = truth(y, m, d, h, mi, s)
    mon.near("mjd-value", float(Fraction(e.value) - t), 0.0, tol(t), value=e.value)


def ordered(mon, rng):
    y, m, d = rand_date(rng)
    a = rand_time(rng)
    mon.case("ordered", y, m, d, *a)
    # the next instant: one second, minute, hour, day, month or year boundary later
    t0 = datetime.datetime(y, m, d, a[0], a[1], 0)
    step = rng.choice([1, 60, 3600, 86400, 86400 * 28, 86400 * 31, 86400 * 365, 0.01])
    try:
        t1 = t0 + datetime.timedelta(seconds=step)
    except OverflowError:
        return
    v0 = mon.call("from_gregorian", Epoch.from_gregorian, y, m, d, a[0], a[1], 0.0).value
    v1 = mon.call("from_gregorian", Epoch.from_gregorian, t1.year, t1.month, t1.day, t1.hour, t1.minute,
                  t1.second + t1.microsecond / 1e6).value
    mon.check("later-is-larger", v1 > v0, "%s -> %r but %s -> %r" % (t0, v0, t1, v1))
    mon.near("elapsed-time", (v1 - v0) * 86400, step, 2 * 86400 * tol(max(abs(v0), abs(v1))) + 2 * math.ulp(float(step)))


def arithmetic(mon, rng):
    k = rng.randrange(6)
    v = gen.epoch(rng) if k < 4 else rng.choice([0.0, 51544.5, -0.5, 0.25, rng.uniform(-678000, 3e6), float(rng.randint(-678000, 2900000))])
    t = rng.choice([0, 1, -1, 0.5, -0.5, 365.25, -36525, 1e-6, -1e-6, rng.uniform(-1e5, 1e5), rng.uniform(-1, 1),
                    rng.choice([-1, 1]) * gen.logu(rng, 1e-9, 1e6)])
    mon.case("arithmetic", v, t)
    e = Epoch(v)
    j = mon.call("julian_value", e.julian_value)
    mon.near("julian-date", float(Fraction(j) - Fraction(v) - Fraction(4800001, 2)), 0.0, 1.01 * math.ulp(abs(v) + 2400001))
    c = mon.call("centuries", e.julian_centuries_past_j2000)
    want = (Fraction(v) - Fraction(103089, 2)) / 36525
    mon.near("julian-centuries", float(Fraction(c) - want), 0.0, 2.5 * math.ulp(abs(v) + 2400001) / 36525 + 2 * math.ulp(float(want)))
    p = mon.call("plus_days", e.plus_days, t)
    mon.near("plus-days", float(Fraction(p.value) - Fraction(v) - Fraction(t)), 0.0, math.ulp(abs(v) + abs(t)))
    # shifting there and back, and in pieces
    b = mon.call("plus_days", p.plus_days, -t)
    mon.near("plus-days", b.value, v, 2 * math.ulp(abs(v) + abs(t)))
    q = mon.call("plus_days", mon.call("plus_days", e.plus_days, t / 2).plus_days, t / 2)
    mon.near("plus-days", q.value, p.value, 3 * math.ulp(abs(v) + abs(t)))
    g = mon.call("gha", e.greenwich_hour_angle)
    cp = mon.call("copy", e.copy)
    mon.equal("copy", cp.value, v)
    mon.check("unchanged", e.value == v and type(e.value) is type(v), "epoch changed from %r to %r" % (v, e.value))
    cp.value = p.value = 0.0
    mon.check("unchanged", e.value == v, "epoch shares state with a copy or shifted epoch")
    _ = g


def every_day(mon, worker, workers):
    # exhaustive: every day of the calendar the standard library has
    first, last = 1, datetime.date.max.toordinal()
    n = 0
    lo = first + (last - first + 1) * worker // workers
    hi = first + (last - first + 1) * (worker + 1) // workers
    fg = Epoch.from_gregorian
    prev = None
    d = datetime.date.fromordinal(lo)
    one = datetime.timedelta(days=1)
    for o in range(lo, hi):
        ep = fg(d.year, d.month, d.day, 0, 0, 0)
        got = ep.value
        n += 1
        if ep.julian_value() != o - MJD0 + 2400000.5:
            mon.case("day", d.year, d.month, d.day)
            mon.violate("julian-date", "Julian date of %s is %r, should be %r" % (d, ep.julian_value(), o - MJD0 + 2400000.5))
        if got != o - MJD0:
            mon.case("day", d.year, d.month, d.day)
            mon.violate("whole-day-mjd", "MJD of %s is %r, should be %d" % (d, got, o - MJD0))
        if prev is not None and not got > prev:
            mon.case("day", d.year, d.month, d.day)
            mon.violate("later-is-larger", "MJD does not increase at %s" % d)
        prev = got
        if o + 1 < hi:
            d += one
    mon.bulk("whole-day-mjd", n)
    mon.stat("days_enumerated_by_worker_%d" % worker, n)
