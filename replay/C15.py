"""C15: first_iteration_bound and partition_bound"""
import itertools
import math
import common
from common import repo

RULE = ("partitions of random instances into the minimal and into larger numbers of subsets, lower bounds below, between and at "
        "subset costs; bound and solution against enumeration of the indicator vectors, validity against the optimum of the "
        "original problem by enumeration")


class Cost:
    def __init__(self, ci):
        self.ci, self.memo = ci, {}

    def __call__(self, scen):
        k = frozenset(scen)
        if k not in self.memo:
            v = common.scen_max(self.ci, sorted(k))
            self.memo[k] = None if v is None else v[0]
        return self.memo[k]


def opt(cost, S, k):
    b = -math.inf
    for out in itertools.combinations(range(S), min(k, S)):
        v = cost([s for s in range(S) if s not in out])
        if v is not None:
            b = max(b, v)
    return b


def first(H):
    import numpy as np
    rng = H.rng
    U = repo('src.UpperBounder').UpperBounder(None, None, None)
    for _ in range(H.scale(2000, 20000)):
        K = rng.randint(1, 10)
        costs = [rng.choice([float(rng.randint(-3, 3)), rng.uniform(-50, 50), 7.0]) for _ in range(K)]
        sols = [np.array([float(k), rng.random()]) for k in range(K)]
        inp = dict(costs=costs)
        H.case(str(costs), inp, nontrivial=K > 1)
        x, z, vo, vb = H.call('first_iteration_bound', inp, U.first_iteration_bound, list(costs), [s.copy() for s in sols])
        z = [float(v) for v in z]
        H.check(vo == max(costs) and vb == max(costs), 'bound is the largest subset cost', inp, (vo, vb), max(costs))
        H.check(sorted(z) == [0.0] * (K - 1) + [1.0], 'one subset indicated', inp, z)
        k = z.index(1.0)
        H.check(costs[k] == max(costs) and np.array_equal(x, sols[k]), 'solution and indicator of that subset', inp, dict(z=z, x=x))


def bounds(H):
    import numpy as np
    rng = H.rng
    AP = repo('src.solver.AdaptivePartitioner').AdaptivePartitioner
    BM = repo('src.BigMFinder').BigMFinder
    for it in range(H.scale(220, 4000)):
        if not H.more(0.9):
            break
        S = rng.randint(2, 8)
        eps = round(rng.randrange(0, S) / S * 0.8, 2)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(2, 5), eps=eps)
        if rng.random() < 0.6:
            ci.vectors_b = ci.vectors_b + np.array([[rng.randint(0, 40) / 10] for _ in range(S)])
        cost = Cost(ci)
        k = common.tol_count(eps, S)
        best = opt(cost, S, k)
        ap = H.call('AdaptivePartitioner', common.describe(ci), lambda: AP(ci, initial_partition_type='random', time_limit=1e6))
        K = rng.randint(k + 1, S)
        part = common.rand_partition(rng, S, K)
        with common.quiet():
            ap.chance_instance_part.load_partition(K, part)
            costs, sols = ap.evaluator.partition_cost(part)
        ap.partition, ap.nb_subsets, ap.subset_costs, ap.subset_sols = part, K, costs, sols
        ap.vUB, ap.xUB = 1e9, np.full(ci.nb_vars, -1.0)
        vLB = rng.choice([-math.inf, 0.0, best - 1e-2, best - 1e-4, best, rng.choice(costs) - 5e-4, rng.choice(costs) + 2e-3])
        if vLB > best:
            vLB = best
        inp = dict(common.describe(ci), partition=part, vLB=vLB, costs=costs)
        H.case(str(inp), dict(partition=part, vLB=vLB, optimum=best))
        if K == k + 1:
            x, z, vo, vb = H.call('first_iteration_bound', inp, ap.upperbounder.first_iteration_bound, list(costs), list(sols))
            H.check(abs(vb - max(costs)) < 1e-9, 'first bound is the largest subset cost', inp, vb, max(costs))
            H.check(vb >= best - 1e-4 * max(1, abs(best)), 'no chance-feasible point above the first bound', inp, vb, best)
            continue
        if any(abs(c - (vLB - 1e-3)) < 1e-7 for c in costs):
            continue
        live = [q for q in range(K) if not costs[q] <= vLB - 1e-3]
        if len(live) < K - k:
            continue
        want = -math.inf
        for out in itertools.combinations(range(K), k):
            sel = [q for q in range(K) if q not in out]
            if all(q in live for q in sel):
                v = cost([s for q in sel for s in part[q]])
                want = max(want, v if v is not None else -math.inf)
        use = rng.random() < 0.6
        meth = rng.choice(['belotti', 'naive', 'song'])
        inp.update(use_big_M=use, method=meth)
        bm = H.call('BigMFinder', inp, BM, ap.chance_instance_part)
        if use:
            ub = max(costs) + rng.choice([0.0, 1.0])
            H.call('update_big_M', inp, bm.update_big_M, K, ub, method=meth, chance_instance=ci, partition=part)
        z0 = [float(rng.random() < 0.5) for _ in range(K)]
        x, z, vo, vb = H.call('partition_bound', inp, ap.upperbounder.partition_bound, ap, list(costs), vLB, z0, [], bm, 1e5, use,
                              use and rng.random() < 0.5)
        H.check(common.close(vo, want, 1e-5) and common.close(vb, want, 1e-5), 'bound of the partitioned problem with only worthless subsets pruned', inp,
                (vo, vb), want)
        if best > vLB:
            H.check(vb >= best - 1e-5 * max(1, abs(best)), 'no better chance-feasible point above the bound', inp, vb, best)
        z = [int(round(float(v))) for v in z]
        H.check(all(q in live for q in range(K) if z[q]) and sum(z) >= K - k, 'indicator solution', inp, z)
        val = float(np.dot(ci.vector_c, x))
        H.check(common.close(val, vo, 1e-6) and all(not common.violated(ci.matrices_A, ci.vectors_b, x, s, 1e-5)
                for q in range(K) if z[q] for s in part[q]), 'solution attains the value', inp, dict(x=x, z=z, value=vo))


PARTS = [first, bounds]
