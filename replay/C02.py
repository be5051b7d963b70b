"""C02: feasibility verdict and summary against an independent evaluation of every constraint"""
import itertools
import math

import common
from common import repo

RULE = ("small instances (S<=40, m<=4, n<=5), data with one decimal incl. zero rows, ties and zero right-hand sides, "
        "points on the grid, at vertices and placed within 1e-7..1e-5 of a constraint, epsilons including products "
        "epsilon*S that are integers up to rounding; the same instance object is checked repeatedly")


def oracle(ci, x):
    S = ci.nb_scenarios
    n = ci.nb_vars
    flags, mx = [], []
    near = False
    for s in range(S):
        worst, bad = 0.0, False
        for i in range(len(ci.vectors_b[s])):
            row = [float(ci.matrices_A[s, i, j]) for j in range(n)]
            v = math.fsum(a * float(y) for a, y in zip(row, x)) - float(ci.vectors_b[s, i])
            if abs(v - 1e-6) < 2e-9:
                near = True
            if v > 1e-6:
                bad = True
                nr = math.sqrt(math.fsum(a * a for a in row))
                worst = max(worst, v / nr if nr != 0 else v)
        flags.append(bad)
        mx.append(worst)
    return flags, mx, near


def check(H, ci, x, eps):
    import numpy as np
    flags, mx, near = oracle(ci, x)
    if near:
        return
    inp = dict(instance=common.describe(ci), x=x)
    k = sum(flags)
    S = ci.nb_scenarios
    H.case((S, ci.nb_vars, k, eps, tuple(np.round(x, 3))), dict(S=S, eps=eps, x=x, violated=k), nontrivial=k > 0)
    X = np.array(x, dtype=float)
    want = k <= common.tol_count(eps, S)
    r = H.call('is_feasible', inp, ci.is_feasible, X)
    H.check(bool(r[0]) == want, 'verdict of is_feasible', inp, (r[0], k), want)
    H.check(r[1] == k, 'number of violated scenarios', inp, r[1], k)
    H.check(common.close(float(r[2]), eps * S, 1e-6), 'tolerated number of scenarios', inp, r[2], eps * S)
    H.check([bool(f) for f in r[3]] == flags, 'flags of is_feasible', inp, r[3], flags)
    ok = H.call('check_feasibility', inp, ci.check_feasibility, X)
    H.check(bool(ok) == want, 'verdict of check_feasibility', inp, (ok, k), want)
    summary(H, ci, inp, flags, mx)
    H.check(np.array_equal(X, np.array(x, dtype=float)), 'the point is left alone', inp, X, x)


def summary(H, ci, inp, flags, mx):
    H.check([bool(f) for f in ci.is_scenario_infeasible] == flags, 'stored flags', inp, ci.is_scenario_infeasible, flags)
    L = [s for s, f in enumerate(flags) if f]
    H.check(list(ci.infeasible_scenarios) == L, 'list of violated scenarios', inp, ci.infeasible_scenarios, L)
    mask = [bool(v) for v in H.call('get_feasible_scenarios', inp, ci.get_feasible_scenarios)]
    H.check(mask == [not f for f in flags], 'mask of satisfied scenarios', inp, mask, [not f for f in flags])
    got = [float(v) for v in H.call('get_sum_infeasibility', inp, ci.get_sum_infeasibility)]
    H.check(len(got) == len(mx) and all(common.close(a, b, 1e-7) for a, b in zip(got, mx)),
            'largest violation per scenario', inp, got, mx)


def near_points(rng, ci, k):
    """points close to a constraint"""
    n = ci.nb_vars
    out = []
    for _ in range(k):
        s, i = rng.randrange(ci.nb_scenarios), rng.randrange(len(ci.vectors_b[0]))
        row = ci.matrices_A[s, i]
        js = [j for j in range(n) if row[j] > 0]
        x = [rng.random() for _ in range(n)]
        if not js:
            continue
        j = rng.choice(js)
        rest = sum(row[q] * x[q] for q in range(n) if q != j)
        d = rng.choice([0, 1e-7, 5e-7, 9e-7, 1.1e-6, 2e-6, 1e-5, -1e-6, 1e-4, 1e-3])
        x[j] = float((ci.vectors_b[s, i] + d - rest) / row[j])
        out.append(x)
    return out


def grid(H):
    rng = H.rng
    for _ in range(H.scale(60, 1500)):
        if not H.more(0.4):
            return
        ci = common.rand_instance(rng)
        eps = ci.epsilon
        for x in itertools.islice(itertools.product([0.0, 0.5, 1.0], repeat=ci.nb_vars), 30):
            check(H, ci, list(x), eps)
        for x in near_points(rng, ci, 25):
            check(H, ci, x, eps)


def rounding(H):
    """epsilon*S integer in decimals: every number of violated scenarios around the tolerance"""
    import numpy as np
    rng = H.rng
    for S in [3, 5, 7, 10, 13, 20, 25, 30, 40, 50, 100]:
        for e in range(0, 100, 1 if S >= 25 else 7):
            if not H.more(0.85):
                return
            eps = e / 100
            k = common.tol_count(eps, S)
            if S > 30 and abs(eps * S - round(eps * S)) > 1e-9:
                continue
            for cnt in {max(0, k - 1), k, min(S, k + 1)}:
                vio = set(rng.sample(range(S), cnt))
                A = [[[2.0 if s in vio else 1.0]] for s in range(S)]
                ci = common.load(A, [1.0], [1.0], True, eps)
                check(H, ci, [1.0], eps)


def stale(H):
    """several points in a row on the same object; partitions of the instance share the code"""
    rng = H.rng
    P = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance
    for _ in range(H.scale(80, 2000)):
        if not H.more(0.97):
            return
        ci = common.rand_instance(rng)
        for _ in range(6):
            check(H, ci, common.rand_point(rng, ci.nb_vars, True), ci.epsilon)


def large(H):
    rng = H.rng
    for S in [60, 150]:
        ci = common.rand_instance(rng, S=S, m=5, n=8, cont=True, eps=0.1)
        for _ in range(3):
            check(H, ci, common.rand_point(rng, 8, True), 0.1)


PARTS = [grid, large, rounding, stale]
