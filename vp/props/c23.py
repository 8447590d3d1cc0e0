"""C23 results depend only on inputs: fresh-process oracle against polluted, reordered, interleaved and threaded histories"""
import os
import pickle
import signal
import random
import subprocess
import sys
import threading

from .. import core, gen, ops, ref

RULE = ("operations drawn from the whole catalogue in clusters of equal, nearby and colliding inputs (epochs and numbers differing by 0 to 1e-3) are executed once each in a process forked from "
        "the freshly imported package, then again after, before and between each other, on rebuilt and on reused operands, on operands whose public attributes were rewritten, and in a "
        "separate interpreter with another hash seed, time zone and locale; object programs run alone and interleaved by random schedules and by pre-emptive threads; all results compared "
        "bit for bit; non-trivial when the operation and inputs are new")
ASSUMPTIONS = ["operations that draw noise are seeded immediately before they run", "only public attributes count as the input of an operation on an object",
               "bit-identity is between runs of the same code on the same interpreter"]


GUARD = [None]  # the monitor whose loop budget also bounds calls made outside mon.call


class bounded:
    """loop budget around code that runs outside mon.call (whole programs get a larger one)"""

    def __init__(self, limit=400_000):
        self.limit = limit

    def __enter__(self):
        m = GUARD[0]
        if m:
            self.old = m._limit, m._in_call
            m._budget, m._limit, m._in_call = 0, self.limit, True

    def __exit__(self, *a):
        m = GUARD[0]
        if m:
            m._limit, m._in_call = self.old
        return False


def run(mon, rng, tier, worker, workers):
    GUARD[0] = mon
    mon.need("fresh-vs-history", "fresh-vs-reused", "fresh-vs-rewritten", "fresh-vs-neighbours", "fresh-vs-shuffled", "other-environment", "alone-vs-interleaved", "alone-vs-threads", "noise-seeded", "after-failure",
             "live-vs-rebuilt")
    big = tier != "quick"
    # everything whose expected value needs a pristine process is computed before this process makes its first call
    jobs = draw_jobs(rng, 5000 if big else 1000)
    progs = [(rng.choice(PROGRAMS), rng.randrange(10 ** 9)) for _ in range(400 if big else 100)]
    with pristine() as fresh:
        want = [fresh(job_outcome, j) for j in jobs]
        alone = [fresh(trace, p) for p in progs]
    mon.stat("fresh_processes_per_worker", len(jobs) + len(progs))
    mon.stat("fresh_outcomes_not_returning", sorted({j[0] + ":" + w[0] for j, w in zip(jobs, want) if w[0] in ("runaway", "died")}))
    mon.run_case(environment, mon, rng, jobs, want)
    if worker == 0 or big:
        mon.run_case(soak, mon, rng)
    mon.run_case(histories, mon, rng, jobs, want, 3 if big else 2)
    mon.run_case(interleave, mon, rng, progs, alone)
    mon.run_case(threads, mon, rng, progs, alone)
    for _ in range(600 if big else 120):
        mon.run_case(live, mon, rng)


# ---- the fresh-process oracle -------------------------------------------------------------------------------
class pristine:
    """evaluates each request in its own child of a process that has only imported the package"""

    def __enter__(self):
        return self.ask

    def __exit__(self, *a):
        return False

    def ask(self, fn, arg):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.alarm(700)  # an orphan never lingers
                os.close(r)
                with os.fdopen(w, "wb") as f:
                    f.write(pickle.dumps(fn(arg)))
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        _, status = os.waitpid(pid, 0)
        if status or not data:
            return ("died", status)
        return pickle.loads(data)


# ---- single operations --------------------------------------------------------------------------------------
def outcome(name, objs, seed):
    try:
        with bounded():
            res = ops.execute(name, objs, seed)
    except core.StepBudget:
        return ("runaway",)
    except Exception as e:
        return ("raised", type(e).__name__)
    o = ops.BY_NAME[name]
    return (ops.freeze(res), tuple(ops.freeze(x) for i, x in enumerate(objs) if i in o.mutates))


def job_outcome(job):
    name, descs, seed = job
    try:
        with bounded():
            objs = [ops.build(d) for d in descs]
    except core.StepBudget:
        return ("runaway",)
    except Exception as e:
        return ("raised", type(e).__name__)
    return outcome(name, objs, seed)


def wiggle(rng, d, scale):
    """the same description with some numbers moved slightly"""
    if isinstance(d, tuple):
        return tuple(wiggle(rng, x, scale) for x in d)
    if isinstance(d, float) and rng.random() < 0.5:
        return d + rng.choice([-1, 1]) * (abs(d) if abs(d) < 1.5e4 else 1.0) * scale
    return d


def share(rng, a, b):
    """b with some of its leaves replaced by a's where the shapes agree: equal keys, different rest"""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and (not a or type(a[0]) is not str or a[0] == b[0]):
        return tuple(share(rng, x, y) if isinstance(x, tuple) else (x if isinstance(x, float) and isinstance(y, float) and rng.random() < 0.5 else y) for x, y in zip(a, b))
    return b


TIMED = ("step_to_epoch", "process", "acquire", "track_state")  # operands whose epochs belong together


def draw_jobs(rng, n):
    pool = [gen.epoch(rng) for _ in range(6)]
    real = gen.epoch

    def pooled(r, lo=15020.0, hi=88069.0):
        return r.choice(pool) + r.choice([0.0, 0.0, 1e-10, -1e-9, 1e-8, 1e-7, -1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.3])

    jobs = []
    weights = [o.weight for o in ops.OPS]
    gen.epoch = pooled
    try:
        todo = list(ops.OPS)
        while len(jobs) < n:
            k = rng.random()
            if jobs and k < 0.4:
                name, d, seed = rng.choice(jobs[-60:])
                kind = rng.random()
                if kind < 0.6:
                    d = wiggle(rng, d, 10.0 ** -rng.randint(2, 15))
                elif kind < 0.9 and not any(x in name for x in TIMED):
                    d = share(rng, d, ops.BY_NAME[name].descs(rng))
                jobs.append((name, d, rng.randrange(10 ** 6)))
            else:
                o = todo.pop(rng.randrange(len(todo))) if todo and rng.random() < 0.5 else rng.choices(ops.OPS, weights)[0]
                jobs.append((o.name, o.descs(rng), rng.randrange(10 ** 6)))
    finally:
        gen.epoch = real
    return jobs


POISON = [
    lambda: ops.Vector3D(0, 0, 0).normalized(), lambda: ops.Matrix3D(*[ops.Vector3D(1, 1, 1)] * 3).inverse(), lambda: ops._E.E.from_a_p(7000.0, -1.0), lambda: ops.VisViva.circular_velocity(-1.0),
    lambda: ops.RK4(ops._gcrf(59000.0, (0.0, 0.0, 0.0), (0.0, 0.0, 0.0))).step(), lambda: ops.Hill(None, 1.0), lambda: ops.Gauss.coes_from_positions(None, None),
    lambda: ops.Sun.get_position(None), lambda: ops.Moon.get_position(ops.Epoch("x")), lambda: ops.Spacecraft(None), lambda: ops.PositionConvert.gcrf.to_itrf(None, ops.Epoch(59000.0)),
    lambda: ops.Earth.precession(None), lambda: ops.RelativeKalman(None, None), lambda: ops.Epoch.from_gregorian("a", 1, 1, 0, 0, 0), lambda: ops.LegendrePolynomial(None),
    lambda: ops.RK4(ops._gcrf(59000.0, (7000.0, 0.0, 0.0), (0.0, 7.5, 0.0))).maneuver(ops.Vector3D(0, 0, 1), 0.01, 0.0, 300.0),
    lambda: ops.GCRF(ops.Epoch(59000.0), None, None), lambda: ops.GroundSite(None), lambda: ops.HCW.from_state_vector(None),
]


def compare(mon, kind, job, got, want):
    mon.context = (job[0], job[1])
    mon.check(kind, got == want, "%s gives another result than in a fresh process: %s" % (job[0], ops.diff(("seq", want), ("seq", got))))


def histories(mon, rng, jobs, want, passes):
    reused = {}
    for n in range(passes):
        order = list(range(len(jobs)))
        if n:
            rng.shuffle(order)
        poisoned = False
        for i in order:
            name, descs, seed = job = jobs[i]
            if n == 0:
                mon.case(name, descs)
            if rng.random() < 0.05:
                try:
                    with bounded():
                        rng.choice(POISON)()
                except (Exception, core.StepBudget):
                    pass
                poisoned = True
            got = job_outcome(job)
            compare(mon, "fresh-vs-history" if n == 0 else "fresh-vs-shuffled", job, got, want[i])
            if poisoned:
                mon.obs["after-failure"] += 1
                poisoned = False
            o = ops.BY_NAME[name]
            if o.seeded:
                mon.obs["noise-seeded"] += 1
            if o.mutates or want[i][0] in ("raised", "runaway"):
                continue
            # the same live operands, asked again later
            if i in reused:
                compare(mon, "fresh-vs-reused", job, outcome(name, reused[i], seed), want[i])
            else:
                reused[i] = [ops.build(d) for d in descs]
            if rng.random() < 0.3:
                rewritten(mon, rng, jobs, want, i)
            if rng.random() < 0.3:
                neighbours(mon, rng, jobs, want, i)


def soak(mon, rng):
    """a long life: thousands of integrator steps and ephemeris, filter and frame calls before anything is compared again"""
    mon.case("soak", mon.tier)
    n = 0
    with bounded(10 ** 9):
        for pert, steps in ((False, 12000), (True, 2500)):
            k = ops.RK4(ops._gcrf(gen.epoch(rng), (7000.0, 0.0, 100.0), (0.0, 7.5, 1.0), 0.0, (0.0, 0.0, 0.0), pert))
            k.step_size = 20.0
            for _ in range(steps):
                k.step()
                n += 1
        for days in (1.3, -2.2, 9.0):
            k = ops.Spacecraft(ops._gcrf(gen.epoch(rng), (42164.0, 0.0, 100.0), (0.0, 3.07, 0.1), 0.0, (0.0, 0.0, 0.0), days < 2))
            k.step_to_epoch(k.current_epoch().plus_days(days))
            h = ops.Hill(ops.build(ops.d_hcw(rng)), 42164.0)
            h.step_by_seconds(days * 86400)
            n += 2
        f = ops.build(ops._kf(rng)[0])
        d = ops._kf(rng)[1]
        for _ in range(300):
            f.process(ops.build(d))
            n += 1
        for _ in range(5000):
            e = ops.Epoch(gen.epoch(rng))
            ops.Sun.get_position(e), ops.Moon.get_position(e), e.greenwich_hour_angle()
            ops._E.EA.from_ma_e(rng.uniform(0, 6), rng.uniform(0, 0.9))
            n += 4
    mon.stat("soak_calls", n)


REWRITABLE = {"EP", "V3", "V6", "M3", "M36", "M63", "M6", "SPH", "LLA", "GCRF", "ITRF", "IJK", "HCW", "COE"}


def rewritten(mon, rng, jobs, want, i):
    """operands that once held other values answer like fresh ones"""
    name, descs, seed = jobs[i]
    o = ops.BY_NAME[name]
    if not any(isinstance(d, tuple) and d[0] in REWRITABLE for d in descs):
        return
    rest = {k for k, d in enumerate(descs) if isinstance(d, tuple) and d[0] not in REWRITABLE}
    if rest & o.mutates:
        return
    try:
        with bounded():
            objs = [ops.build(d) for d in descs]
            other = [objs[k] if k in rest else ops.build(d) for k, d in enumerate(o.descs(rng))]
            ops.execute(name, other, seed)
            objs = [objs[k] if k in rest else ops.build(d) for k, d in enumerate(descs)]
    except (Exception, core.StepBudget):
        return
    for k, (a, b) in enumerate(zip(other, objs)):
        if a is not b and ops.is_ours(a):
            transplant(a, b)
        else:
            other[k] = b
    if [ops.freeze(x) for x in other] != [ops.freeze(x) for x in objs]:
        return
    compare(mon, "fresh-vs-rewritten", jobs[i], outcome(name, other, seed), want[i])


def neighbours(mon, rng, jobs, want, i):
    """an operand that has just served almost the same (or the same) request on other partners answers like a fresh one"""
    name, descs, seed = jobs[i]
    mine = [k for k, d in enumerate(descs) if isinstance(d, tuple)]
    if len(descs) < 2 or not mine:
        return
    keep = {rng.choice(mine)} if rng.random() < 0.7 else {k for k in range(len(descs)) if rng.random() < 0.5}
    try:
        with bounded():
            objs = [ops.build(d) for d in descs]
            for _ in range(rng.choice([1, 1, 2])):
                scale = 10.0 ** -rng.randint(2, 15)
                ops.execute(name, [objs[k] if k in keep else ops.build(wiggle(rng, d, scale)) for k, d in enumerate(descs)], seed)
    except (Exception, core.StepBudget):
        return
    compare(mon, "fresh-vs-neighbours", jobs[i], outcome(name, objs, seed), want[i])


def transplant(a, b):
    for k, v in ops.public(b).items():
        if ops.is_ours(v):
            if hasattr(a, k):
                transplant(getattr(a, k), v)
        else:
            try:
                setattr(a, k, v)
            except AttributeError:
                pass


CHILD = r"""
import pickle, sys
sys.dont_write_bytecode = True
sys.path[:0] = [sys.argv[1], sys.argv[2]]
from vp import core
from vp.props import c23
c23.GUARD[0] = core.Monitor("C23", "quick", 0)
c23.GUARD[0].attach()
jobs = pickle.load(sys.stdin.buffer)
out = [c23.job_outcome(j) for j in jobs]
sys.stdout.buffer.write(pickle.dumps(out))
"""


def environment(mon, rng, jobs, want):
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 10 ** 6)), TZ=rng.choice(["Asia/Tokyo", "America/New_York", "UTC"]), LANG="C", LC_ALL="C")
    mon.case("environment", env["PYTHONHASHSEED"], env["TZ"])
    p = subprocess.run([sys.executable, "-c", CHILD, core.REPO_SRC, core.ROOT], input=pickle.dumps(jobs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd="/", timeout=600)
    if p.returncode:
        mon.violate("other-environment", "separate interpreter failed: %s" % p.stderr.decode()[-400:])
        return
    for j, got, w in zip(jobs, pickle.loads(p.stdout), want):
        compare(mon, "other-environment", j, got, w)


# ---- programs over objects ------------------------------------------------------------------------------------
def start(p, t=None):
    r, v = gen.rv(p)
    return ops._gcrf(gen.epoch(p) if t is None else t, r, v, 0.0, (0.0, 0.0, 0.0), p.random() < 0.85)


def prog_spacecraft(p):
    s = ops.Spacecraft(start(p))
    yield s
    for _ in range(gen.length(p, 3, 9, 5)):
        k = p.randrange(9)
        if k == 0:
            s.step()
        elif k == 8:
            configure(p, s)
        elif k <= 2:
            s.step_to_epoch(s.current_epoch().plus_days(gen.leap(p, -0.006, 0.01)))
        elif k == 3:
            s.impulsive_maneuver(ops.Vector3D(*gen.burn3(p, 0.003)))
        elif k == 4:
            s.finite_maneuver(ops.Vector3D(*gen.burn3(p, 0.001)))
        elif k == 5:
            s.track_sun()
        elif k == 6:
            s.track_lvlh()
        else:
            yield [s.sun_vector(), s.moon_vector(), s.current_state(), s.sma(), s.srp_scalar()]
        yield s


def configure(p, s):
    """one vehicle is given its own settings"""
    for o, k, v in p.sample([(s, "albedo", p.uniform(0.05, 0.9)), (s, "body_radius", gen.logu(p, 1e-3, 0.05)), (s, "dry_mass", p.uniform(100, 3000)), (s, "propellant_mass", p.uniform(50, 500)),
                             (s, "m_dot", gen.logu(p, 1e-3, 0.1)), (s, "isp", p.uniform(200, 450)), (s, "slew_scalar", gen.logu(p, 1e-4, 1e-2)), (s, "pointing_accuracy", gen.logu(p, 1e-7, 1e-3)),
                             (s.propagator, "step_size", p.uniform(10, 300)), (s.wfov.limits, "bore", p.uniform(0.01, 3)), (s.wfov.limits, "vismag", p.uniform(8, 25)), (s.wfov.limits, "sun_soft", p.uniform(0, 2)),
                             (s.wfov.limits, "earth", p.uniform(0, 1)), (s.wfov.limits, "moon", p.uniform(0, 1)), (s.wfov, "fov", p.uniform(0.01, 0.3)), (s.nfov, "fov", p.uniform(0.001, 0.1)),
                             (s.nfov, "resolution_factor", gen.logu(p, 1e-5, 1e-3)), (s.nfov.limits, "bore", p.uniform(0.01, 3))], p.randint(1, 5)):
        setattr(o, k, v)


def pair(p, noise):
    t = gen.epoch(p)
    r, v = gen.rv(p)
    q, w = gen.bound_nearby(p, r, v, 5, p.choice([400, 400, 3000]))
    a, b = ops.Spacecraft(ops._gcrf(t, r, v)), ops.Spacecraft(ops._gcrf(t, q, w))
    yield [a, b]
    a.acquire(b)
    yield a
    for _ in range(gen.length(p, 3, 8, 5)):
        k = p.randrange(7)
        if k == 6:
            configure(p, p.choice([a, b]))
        elif k <= 1:
            a.step_to_epoch(a.current_epoch().plus_days(p.uniform(0, 0.006)))
        elif k == 2:
            b.impulsive_maneuver(ops.Vector3D(*gen.burn3(p, 0.001)))
        elif k == 3 or not noise:
            yield [a.range(b), a.sun_angle(b), a.hill_position(b), b.target_vector(a), a.detect(b), a.visual_magnitude(b), b.detect(a), a.wfov.range_error(100.0, 0.01)]
        else:
            random.seed(p.randrange(10 ** 6))
            p.choice([a.process_wfov, a.process_nfov])(b)
        yield a


def prog_pair(p):
    return pair(p, True)


def prog_quiet_pair(p):
    return pair(p, False)


def prog_rk4(p):
    k = ops.RK4(start(p))
    for _ in range(gen.length(p, 3, 8, 5)):
        c = p.randrange(4)
        if c == 0:
            k.step_size = p.uniform(10, 300)
            k.step()
        elif c < 3:
            k.step_to_epoch(k.state.epoch.plus_days(gen.leap(p, -0.006, 0.01)))
        else:
            k.maneuver(ops.Vector3D(*gen.burn3(p, 0.002)), p.uniform(0.003, 0.02), p.uniform(300, 900), p.uniform(200, 400))
        yield k


def prog_filter(p):
    t = gen.epoch(p)
    r, v = gen.rv(p)
    h = ops.Hill(ops.HCW(ops.Epoch(t), ops.Vector3D(*gen.burn3(p, 20, 100)), ops.Vector3D(*[p.gauss(0, 0.01) for _ in range(3)])), ref.norm(r))
    k = ops.RelativeKalman(ops.Epoch(t), h)
    yield k
    for _ in range(gen.length(p, 2, 7, 5)):
        t += p.uniform(0, 0.01)
        k.process(ops.SpaceObservation(ops._gcrf(t, r, v), ops.Vector3D(*gen.vec3(p, 5, p.choice([60, 60, 3000]))), p.uniform(0.01, 0.5), p.uniform(1e-6, 1e-4)))
        yield k


def prog_hill(p):
    h = ops.Hill(ops.build(ops.d_hcw(p)), p.uniform(6700, 45000))
    for _ in range(gen.length(p, 3, 10, 5)):
        if p.random() < 0.3:
            h.step()
        else:
            h.step_by_seconds(p.uniform(-9000, 9000))
        yield h


def prog_orbit(p):
    for _ in range(gen.length(p, 3, 8, 5)):
        s = ops.build(ops.d_ijk(p))
        c = ops.ClassicalElements.from_ijk(s)
        yield c
        yield c.to_ijk()
        yield ops.Gauss.coes_from_positions(*[ops.build(d) for d in ops.d_pair(p)])


PROG = {"spacecraft": prog_spacecraft, "pair": prog_pair, "quiet": prog_quiet_pair, "rk4": prog_rk4, "filter": prog_filter, "hill": prog_hill, "orbit": prog_orbit}
PROGRAMS = ["spacecraft", "spacecraft", "pair", "pair", "quiet", "rk4", "rk4", "filter", "filter", "hill", "orbit"]
NOISELESS = {"spacecraft", "quiet", "rk4", "filter", "hill", "orbit"}


def events(prog):
    """the program as a stream of frozen observations; an exception ends it as an event"""
    try:
        for x in PROG[prog[0]](random.Random(prog[1])):
            yield ops.freeze(x)
    except core.StepBudget:
        yield ("runaway",)
    except Exception as e:
        yield ("raised", type(e).__name__)


def trace(prog):
    with bounded(20_000_000):
        return list(events(prog))


def same_trace(mon, kind, prog, got, want):
    mon.context = ("program", prog)
    k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    mon.check(kind, got == want, "program %r departs from its solitary run at event %d: %s" % (
        prog, k, ops.diff(("seq", want[k]), ("seq", got[k])) if k < min(len(got), len(want)) else "length %d -> %d" % (len(want), len(got))))
    mon.obs[kind + "-events"] += len(got)


def interleave(mon, rng, progs, alone):
    for rounds in range(2):
        order = list(range(len(progs)))
        rng.shuffle(order)
        while order:
            group, order = order[:6], order[6:]
            mon.case("interleave", tuple(progs[i] for i in group), rounds)
            live = {i: events(progs[i]) for i in group}
            got = {i: [] for i in group}
            while live:
                i = rng.choice(list(live))
                try:
                    with bounded(20_000_000):
                        got[i].append(next(live[i]))
                except StopIteration:
                    del live[i]
            for i in group:
                same_trace(mon, "alone-vs-interleaved", progs[i], got[i], alone[i])


def threads(mon, rng, progs, alone):
    """pre-emptive interleaving inside calls"""
    mine = [i for i, p in enumerate(progs) if p[0] in NOISELESS]
    rng.shuffle(mine)
    got = {}
    old = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        while mine:
            group, mine = mine[:4], mine[4:]
            mon.case("threads", tuple(progs[i] for i in group))

            def work(i):
                got[i] = list(events(progs[i]))
            ts = [threading.Thread(target=work, args=(i,)) for i in group]
            with bounded(100_000_000):
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
    finally:
        sys.setswitchinterval(old)
    for i, g in got.items():
        same_trace(mon, "alone-vs-threads", progs[i], g, alone[i])


# ---- a spacecraft with a past against a new one with the same state -------------------------------------------
def live(mon, rng):
    seed = rng.randrange(10 ** 9)
    mon.case("live", seed)
    p = random.Random(seed)
    s = ops.Spacecraft(start(p))
    other = ops.Spacecraft(start(p))
    for _ in range(gen.length(p, 2, 6, 5)):
        k = p.randrange(5)
        if k == 0:
            mon.call("step", s.step)
        elif k == 1:
            mon.call("step_to_epoch", s.step_to_epoch, s.current_epoch().plus_days(p.uniform(-0.005, 0.01)))
        elif k == 2:
            mon.call("impulsive_maneuver", s.impulsive_maneuver, ops.Vector3D(*gen.burn3(p, 0.003)))
        elif k == 3:
            mon.call("finite_maneuver", s.finite_maneuver, ops.Vector3D(*gen.burn3(p, 0.001)))
        else:
            s.body_radius, s.albedo = gen.logu(p, 1e-3, 0.02), p.uniform(0.1, 0.9)
        st = s.propagator.state
        n = ops.Spacecraft(ops._gcrf(st.epoch.value, core.vec(st.position), core.vec(st.velocity), 0.0, (0.0, 0.0, 0.0), st.use_perturbations))
        n.body_radius, n.albedo, n.dry_mass, n.propellant_mass = s.body_radius, s.albedo, s.dry_mass, s.propellant_mass
        for name in ("area", "srp_scalar", "total_mass", "sma", "velocity", "position", "sun_vector", "moon_vector", "earth_vector", "current_epoch"):
            a, b = ops.freeze(mon.call(name, getattr(s, name))), ops.freeze(getattr(n, name)())
            mon.check("live-vs-rebuilt", a == b, "%s of a spacecraft with a past differs from a new one in the same state: %s" % (name, ops.diff(("seq", b), ("seq", a))))
        for name in ("range", "sun_angle", "earth_angle", "moon_angle", "target_vector", "hill_position"):
            a, b = ops.freeze(getattr(s, name)(other)), ops.freeze(getattr(n, name)(other))
            mon.check("live-vs-rebuilt", a == b, "%s of a spacecraft with a past differs: %s" % (name, ops.diff(("seq", b), ("seq", a))))
            if name != "hill_position":
                a, b = ops.freeze(getattr(other, name)(s)), ops.freeze(getattr(other, name)(n))
                mon.check("live-vs-rebuilt", a == b, "%s toward a spacecraft with a past differs: %s" % (name, ops.diff(("seq", b), ("seq", a))))
        # and its next step is the step of the new one
        t = s.current_epoch().plus_days(p.uniform(0, 0.004))
        mon.call("step_to_epoch", s.step_to_epoch, t)
        n.step_to_epoch(t)
        a, b = s.propagator.state, n.propagator.state
        mon.check("live-vs-rebuilt", (a.epoch.value, core.vec(a.position), core.vec(a.velocity)) == (b.epoch.value, core.vec(b.position), core.vec(b.velocity)),
                  "propagation from the same state differs with the past")
