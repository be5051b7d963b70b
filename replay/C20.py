"""C20: remaining time, time limit handed to the solver, no phase once no time is left"""
import math
import common
import adaptive
from common import repo

RULE = ("simulated clock: random start, limit, elapsed and finish times; recorded TimeLimit parameters of real solver "
        "calls under a clock that advances at every reading; runs of the adaptive method stopped at every possible "
        "clock reading")


class Clock:
    def __init__(self, t=1000.0, step=0.0):
        self.t, self.step = t, step
        self.n = 0
        self.jump_at = None

    def time(self):
        self.n += 1
        self.t += self.step
        if self.jump_at is not None and self.n >= self.jump_at:
            self.jump_at = None
            self.t += 1e9
        return self.t


class FakeTime:
    """stands in for the module time of one source module"""

    def __init__(self, clock, real):
        self._c, self._r = clock, real

    def __getattr__(self, k):
        if k in ('time', 'perf_counter', 'monotonic'):
            return self._c.time
        return getattr(self._r, k)


MODS = ['src.TimeManager', 'src.solver.Solver', 'src.solver.MilpSolver', 'src.solver.AdaptivePartitioner',
        'src.optim.OptiModel', 'src.Informer', 'src.optim.CCLPModel']


class patched:
    def __init__(self, clock):
        self.clock = clock

    def __enter__(self):
        import time
        self.saved = []
        for n in MODS:
            m = repo(n)
            if hasattr(m, 'time'):
                self.saved.append((m, m.time))
                m.time = FakeTime(self.clock, time) if not callable(m.time) else self.clock.time
        return self.clock

    def __exit__(self, *a):
        for m, t in self.saved:
            m.time = t


def manager(H):
    TM = repo('src.TimeManager').TimeManager
    rng = H.rng
    for _ in range(H.scale(3000, 50000)):
        t0 = rng.choice([0.0, 1000.0, rng.random() * 1e6])
        lim = rng.choice([0, 0.0, 1, 3600, rng.random() * 100, 1e9])
        with patched(Clock(t0)) as ck:
            H.call('set_limit_and_start_time', dict(limit=lim), TM.set_limit_and_start_time, lim)
            H.check(TM.get_start_time() == t0, 'start time', dict(start=t0, limit=lim), TM.get_start_time(), t0)
            for _ in range(3):
                dt = rng.choice([0.0, lim, lim / 2, lim + 1e-3, rng.random() * 200, 1e10, lim * 0.999])
                ck.t = t0 + dt
                el = ck.t - t0
                inp = dict(start=t0, limit=lim, elapsed=dt)
                H.case((t0, lim, dt), inp)
                got = H.call('get_remaining_time', inp, TM.get_remaining_time)
                want = lim - el if el < lim else 0
                H.check(abs(got - want) <= 1e-9 * max(1, abs(want)) and got >= 0, 'remaining time', inp, got, want)
            ck.t = t0 + dt
            H.call('set_final_time', inp, TM.set_final_time)
            ck.t += 17.0
            H.check(abs(TM.get_total_time() - (t0 + dt - t0)) < 1e-9, 'total time is finish minus start', inp, TM.get_total_time(), dt)
            rem = TM.get_remaining_time()
            H.check(abs(rem - max(lim - (ck.t - t0), 0)) < 1e-6, 'remaining time after finish', inp, rem)


def created(H):
    """the clock of a method starts when the method is created"""
    TM = repo('src.TimeManager').TimeManager
    AP = repo('src.solver.AdaptivePartitioner').AdaptivePartitioner
    MS = repo('src.solver.MilpSolver').MilpSolver
    rng = H.rng
    for _ in range(H.scale(20, 200)):
        ci = common.rand_instance(rng, S=rng.randint(2, 5), n=3, m=2, eps=0.3)
        lim = rng.choice([5, 60.0, 1800])
        t0 = rng.random() * 1e5
        with patched(Clock(t0)) as ck:
            kind = rng.choice(['milp', 'adaptive'])
            inp = dict(kind=kind, limit=lim)
            old = H.call('method', inp, lambda: MS(ci, time_limit=1e5))
            ck.t = t0 + 500
            m = H.call('method', inp, lambda: MS(ci, time_limit=lim) if kind == 'milp' else AP(ci, time_limit=lim))
            H.case((kind, lim, t0), inp)
            H.check(abs(TM.get_start_time() - ck.t) < 1e-6, 'clock starts with the method', inp, TM.get_start_time(), ck.t)
            ck.t += 3.25
            H.check(abs(TM.get_remaining_time() - (lim - 3.25)) < 1e-6, 'remaining time of the method', inp,
                    TM.get_remaining_time(), lim - 3.25)


def handed(H):
    """TimeLimit = remaining time less the time spent building"""
    import gurobipy as gp
    rng = H.rng
    MS = repo('src.solver.MilpSolver').MilpSolver
    TM = repo('src.TimeManager').TimeManager
    CM = repo('src.optim.CCLPModel').CCLPModel
    for _ in range(H.scale(80, 800)):
        if not H.more(0.5):
            break
        S = rng.randint(2, 5)
        ci = common.rand_instance(rng, S=S, n=3, m=2, eps=rng.choice([0.2, 0.4, 0.5]))
        lim = rng.choice([500.0, 3600])
        build_time = rng.choice([0.0, 0.03, 0.4, 0.9, 7.0, 123.0])
        before = rng.choice([0.0, 0.3, 11.0, 100.0])
        seen = []
        adapt = rng.random() < 0.5
        with patched(Clock(1000.0)) as ck:
            orig = CM.build
            orig_solve = CM.solve

            def build(self, *a, **k):
                out = orig(self, *a, **k)
                ck.t += build_time
                return out

            def solve(self, *a, **k):
                seen.append((self.grb_model.getParamInfo('TimeLimit')[2], TM.get_remaining_time()))
                return orig_solve(self, *a, **k)
            CM.build, CM.solve = build, solve
            try:
                inp = dict(limit=lim, before=before, build=build_time, adaptive=adapt)
                if not adapt:
                    m = H.call('MilpSolver', inp, lambda: MS(ci, time_limit=lim))
                    ck.t += before
                    meth = rng.choice(['naive', 'belotti', 'song'])
                    H.call('solve', inp, lambda: m.solve(use_big_m=True, big_m_method=meth))
                else:
                    ci, o, so, seed = adaptive.hard(rng)
                    lim = 1e5
                    inp['limit'] = lim
                    R = adaptive.Recorder(ci, o, so, seed, limit=lim)
                    R.build()
                    ck.t += before
                    H.call('solve', inp, R.solve)
            finally:
                CM.build, CM.solve = orig, orig_solve
        H.case((lim, before, build_time, S, adapt, len(seen)), inp, nontrivial=bool(seen))
        for tl, left in seen:
            # at the moment of the call the remaining time already is what is left after building
            if left > 0:
                H.check(abs(tl - left) < 1e-6, 'time limit handed to the solver', inp, tl, left)
            if not adapt:
                w = lim - before - build_time
                H.check(abs(tl - w) < 1e-6, 'time limit: remaining time less building time', inp, tl, w)


PHASES = ['upper', 'lower', 'split', 'merge']


def stops(H):
    """once the clock says that no time is left, no further phase of an iteration starts"""
    rng = H.rng
    TM = repo('src.TimeManager').TimeManager
    for it in range(H.scale(60, 1500)):
        if not H.more(0.9):
            break
        ci, o, so, seed = adaptive.hard(rng)
        total = None
        for k in range(0, H.scale(10, 40)):
            log = []

            def begin(name):
                def h(rec, args):
                    log.append((name, ck.t >= 1e8))
                return h
            hooks = {'projection:before': begin('projection'), 'refine:before': begin('refine'),
                     'cclp:before': begin('cclp'), 'first:before': begin('first')}
            with patched(Clock(1000.0)) as ck:
                R = adaptive.Recorder(ci, o, so, seed, limit=1e5, hooks=hooks)
                R.build()
                n0 = ck.n
                # no time is left from the j-th clock reading of the run on
                j = 1 if k == 0 else rng.randint(2, max(3, total or 40))
                ck.jump_at = n0 + j
                real = TM.get_remaining_time
                late = []
                m = R.m

                def left():
                    v = real()
                    if v <= 0:
                        late.append(len(log))
                    return v
                TM.get_remaining_time = left
                lb0 = []
                try:
                    with common.quiet():
                        R.solve()
                except Exception as e:
                    # a solver call that got no time ends without a solution: outside this property
                    if 'TimeLimit' in str(e) or "attribute 'X'" in str(e) or "attribute 'ObjVal'" in str(e):
                        H.skip('runs whose last solver call got no time at all: nothing after that call')
                        continue
                    if common.is_gurobi_limit(e):
                        H.skip('instance above the size limit of the solver licence')
                        break
                    raise
                finally:
                    TM.get_remaining_time = real
                n1 = ck.n
                if ck.jump_at is not None:
                    total = n1 - n0
            H.case((seed, j), dict(seed=seed, reading=j), nontrivial=bool(late))
            inp = dict(R.inp(), reading=j, phases=log)
            if late:
                H.check(len(log) <= late[0], 'no phase starts after the remaining time was found to be zero', inp,
                        log[late[0]:])
            # whatever the code looked at: at most the phase already being prepared when time ran out still starts
            after = [nm for nm, gone in log if gone]
            H.check(len(after) <= 1, 'at most the phase under way is entered after time ran out', inp, after)
        else:
            continue


PARTS = [manager, created, handed, stops]
