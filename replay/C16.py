"""C16: bounds of the adaptive method during and after runs, early stops included"""
import math
import common
import adaptive
import C14
import C15
from common import repo

RULE = ("runs of all configurations on small instances with the optimum known by enumeration; bounds and stored solution "
        "checked after every phase, in every stored iteration line and at the end; the same with the time limit reached at a "
        "random clock reading or an interrupt; reported gaps for random bounds")


def gap(lb, ub):
    if math.isinf(lb) or math.isinf(ub):
        return math.inf
    if lb == ub:
        return 0.0
    return math.inf if lb == 0 else (ub - lb) / abs(lb)


def watch(H, ci, best, R):
    st = dict(lb=-math.inf, ub=math.inf)

    def look(rec, args, out, tok):
        m = rec.m
        inp = dict(rec.inp(), vLB=m.vLB, vUB=m.vUB, xLB=m.xLB if math.isfinite(m.vLB) else None, earlier=dict(st), optimum=best)
        t = 1e-6 * max(1.0, abs(best))
        H.check(m.vLB >= st['lb'] - 1e-9, 'the lower bound never decreases', inp)
        H.check(m.vUB <= st['ub'] + 2e-8 + 1e-9 * abs(m.vUB), 'the upper bound never increases', inp)
        st['lb'], st['ub'] = m.vLB, m.vUB
        H.check(m.vUB >= best - 20 * t, 'no chance-feasible point above the upper bound', inp)
        H.check(m.vLB <= best + 20 * t, 'no lower bound above the optimum', inp)
        if math.isfinite(m.vLB):
            H.check(C14.attained(ci, m.xLB, m.vLB), 'the lower bound is the objective of the stored chance-feasible solution', inp)
    return look


def final(H, ci, best, R, feas, look):
    m = R.m
    look(R, None, None, None)
    inp = dict(R.inp(), vLB=m.vLB, vUB=m.vUB, optimum=best)
    if feas['last']:
        H.check(abs(m.vLB - m.vUB) <= 1e-9 * max(1, abs(m.vUB)), 'bounds coincide when the relaxed solution is feasible', inp)
        H.check(common.close(m.vLB, best, 1e-5) and C14.attained(ci, m.xLB, m.vLB), 'and the stored solution attains them', inp, m.xLB)
    for k, line in enumerate(m.informer.iteration_info):
        lb, ub, g = -float(line[2]), -float(line[3]), float(line[4])
        if math.isfinite(lb) and lb > 1e-3:
            w = 100 * gap(lb, ub)
            # the line holds bounds rounded to three decimals
            H.check(abs(g - w) <= 1e-3 + 100 * 2e-3 / abs(lb) * (1 + abs(w) / 100), 'reported gap', dict(inp, line=line), g, w)


def instance(rng, it):
    if it % 3 == 0:
        ci, o, so, seed = adaptive.pick(rng)
    else:
        ci, o, so, seed = adaptive.hard(rng)
    return ci, dict(o, projection_method=rng.choice(['counter', 'rescaled_max_violation'])), so, seed


def combos(ci):
    return math.comb(ci.nb_scenarios, common.tol_count(ci.epsilon, ci.nb_scenarios))


def runs(H):
    rng = H.rng
    n = 0
    for it in range(H.scale(400, 20000)):
        if not H.more(0.5) or n >= H.scale(90, 10 ** 6):
            break
        ci, o, so, seed = instance(rng, it)
        if combos(ci) > 600:
            continue
        n += 1
        best, _ = common.cclp_opt(ci)
        feas = dict(last=False)
        R = adaptive.Recorder(ci, o, so, seed)
        look = watch(H, ci, best, R)

        def upper(rec, args, out, tok):
            feas['last'] = bool(out[1])
            look(rec, args, out, tok)
        R.hooks = {k: look for k in ('split', 'merge', 'lower', 'iteration', 'info')}
        R.hooks['upper'] = upper
        H.case((seed, it), dict(seed=seed, options=o, solve=so))
        try:
            H.call('run', R.inp(), lambda: (R.build(), R.solve()))
        except Exception as e:
            if common.is_gurobi_limit(e):
                continue
            raise
        final(H, ci, best, R, feas, look)
        H.check(common.close(R.m.vLB, best, 2e-4) and common.close(R.m.vUB, best, 2e-4), 'a run without time limit ends at the optimum', R.inp(),
                (R.m.vLB, R.m.vUB), best)


def negative(H):
    """negative coefficients and right-hand sides: the scenarios of a projection may have no common solution"""
    rng = H.rng
    n = 0
    for it in range(H.scale(4000, 40000)):
        if not H.more(0.7) or n >= H.scale(1500, 10 ** 6):
            break
        S, k = rng.randint(3, 8), rng.randint(2, 5)
        A = []
        for s in range(S):
            rows = [[0] * k, [-1] * k]
            j = rng.randrange(k)
            rows[0][j] = rng.choice([1, 0])
            if rng.random() < 0.6:
                rows[1] = [-1 if q == (j + 1) % k else 0 for q in range(k)]
            A.append(rows)
        c = [rng.randint(-2, 9) for _ in range(k)]
        ci = common.load(A, [0, -1], c, rng.random() < 0.5, rng.choice([0.2, 0.3, 0.5, 0.6]))
        try:
            best, _ = common.cclp_opt(ci)
        except Exception:
            continue
        if best is None or not math.isfinite(best):
            continue
        n += 1
        R = adaptive.Recorder(ci, rng.choice(adaptive.OPTS), dict(use_merger=rng.random() < 0.5, use_big_M=False), it)
        look = watch(H, ci, best, R)
        R.hooks = {q: look for q in ('split', 'merge', 'lower', 'iteration', 'info', 'upper')}
        H.case((S, k, it), dict(A=A, c=c))
        try:
            with common.quiet():
                R.build()
                R.solve()
        except common.Found:
            raise
        except Exception as e:
            if common.is_gurobi_limit(e) or "attribute 'ObjVal'" in str(e) or "attribute 'X'" in str(e):
                continue        # a subset without any solution: outside the program's reach
            H.fail('run: raised ' + type(e).__name__, R.inp(), repr(e))
        look(R, None, None, None)


def phase(H):
    """_upper_bound on answers of the solver with and without a gap: what was proved stays a valid bound"""
    import numpy as np
    rng = H.rng
    ci, o, so, seed = adaptive.pick(rng)
    AP = repo('src.solver.AdaptivePartitioner').AdaptivePartitioner
    R = adaptive.Recorder(ci, dict(o), dict(so), seed)
    with common.quiet():
        R.build()
    a = R.m
    if not hasattr(a, 'subset_costs'):
        a.subset_costs, a.subset_sols = [0.0] * a.nb_subsets, [np.zeros(ci.nb_vars)] * a.nb_subsets
    a.iteration = 1
    n = ci.nb_vars
    for _ in range(H.scale(200, 2000)):
        x = np.zeros(n) if rng.random() < 0.4 else np.array(common.rand_point(rng, n, ci.continuous_var))
        vo = rng.choice([float(x @ ci.vector_c), rng.uniform(0, 50)])
        vb = vo + rng.choice([0, 0, 1e-9, rng.uniform(0, 20)])
        old = rng.choice([math.inf, vb, vb + rng.uniform(0, 10), vb - rng.uniform(0, 10)])
        a.nb_subsets, a.minimum_partition_size = 5, 2
        a.vUB, a.xUB, a.vLB = old, None, -math.inf
        a.upperbounder.partition_bound = lambda *k, **q: (x, [0.0] * 5, vo, vb)
        inp = dict(x=x, v_obj=vo, v_bnd=vb, vUB=old)
        H.case((vo, vb, old), inp)
        with common.quiet():
            out = H.call('_upper_bound', inp, a._upper_bound, None, False)
        H.check(a.vUB >= min(old, vb), 'the upper bound stays at or above what the solver proved', inp, a.vUB, min(old, vb))
        H.check(a.vUB <= old + 1e-8 + 1e-12 * abs(old), 'the upper bound never increases', inp, a.vUB)


def stopped(H):
    """early stops: no time left from a random moment on, or interrupted"""
    rng = H.rng
    import C20
    TM = repo('src.TimeManager').TimeManager
    n = 0
    for it in range(H.scale(400, 20000)):
        if not H.more(0.9) or n >= H.scale(40, 10 ** 6):
            break
        ci, o, so, seed = instance(rng, it)
        if combos(ci) > 600:
            continue
        n += 1
        best, _ = common.cclp_opt(ci)
        for k in range(3):
            with C20.patched(C20.Clock(1000.0)) as ck:
                R = adaptive.Recorder(ci, o, so, seed, limit=1e5)
                look = watch(H, ci, best, R)
                feas = dict(last=False)
                stop = rng.choice(['time', 'interrupt'])
                count = [0]
                at = rng.randint(1, 12)

                def phase(rec, args):
                    count[0] += 1
                    if stop == 'interrupt' and count[0] == at:
                        raise KeyboardInterrupt

                def tick(rec, args, out, tok):
                    look(rec, args, out, tok)
                    count[0] += 1
                    if stop == 'time' and count[0] >= at:
                        ck.t += 1e9

                def upper(rec, args, out, tok):
                    feas['last'] = bool(out[1])
                    tick(rec, args, out, tok)
                R.hooks = {q: tick for q in ('split', 'merge', 'lower', 'cclp')}
                R.hooks['upper'] = upper
                R.hooks['iteration'] = R.hooks['info'] = look
                for q in ('split', 'merge', 'lower', 'upper', 'load', 'incumbent'):
                    R.hooks[q + ':before'] = phase
                R.hooks['cclp'] = lambda rec, args, out, tok: tick(rec, args, out, tok)
                H.case((seed, it, k), dict(seed=seed, stop=stop, at=at))
                try:
                    with common.quiet():
                        R.build()
                        count[0] = 0
                        R.solve()
                except KeyboardInterrupt:
                    if not hasattr(R, 'm'):
                        continue
                    look(R, None, None, None)
                    continue
                except common.Found:
                    raise
                except Exception as e:
                    if common.is_gurobi_limit(e) or 'TimeLimit' in str(e) or "attribute 'X'" in str(e):
                        continue
                    H.fail('run: raised ' + type(e).__name__, R.inp(), repr(e))
                final(H, ci, best, R, feas, look)


def gaps(H):
    """the reported gap, through the result row"""
    import csv
    import os
    rng = H.rng
    AP = repo('src.solver.AdaptivePartitioner').AdaptivePartitioner
    TM = repo('src.TimeManager').TimeManager
    ci, o, so, seed = adaptive.pick(rng)
    R = adaptive.Recorder(ci, o, so, seed)
    H.call('run', {}, lambda: (R.build(), R.solve()))
    TM.set_final_time()
    out = os.path.join(common.SCRATCH, 'gap.csv')
    for _ in range(H.scale(300, 3000)):
        lo = rng.choice([-math.inf, -5.0, 0.0, 2.5, rng.uniform(-10, 100)])
        hi = rng.choice([math.inf, lo, lo + rng.random() * 10]) if lo > -math.inf else rng.choice([math.inf, 4.0])
        R.m.vLB, R.m.vUB = lo, hi
        inp = dict(vLB=lo, vUB=hi)
        H.case((lo, hi), inp)
        H.call('write', inp, R.m.write_all_computation_details, out)
        g = float(next(csv.reader(open(out)))[-1])
        w = 100 * gap(lo, hi)
        H.check(g == w if math.isinf(w) else abs(g - w) <= 6e-4, 'reported gap', inp, g, w)


PARTS = [runs, negative, phase, stopped, gaps]
