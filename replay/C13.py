"""C13: ahmed_et_al_bound against its definition; no chance-feasible point above the bound"""
import math
from fractions import Fraction
import common
from common import repo

RULE = ("random cost lists with ties, equal and unequal probabilities, epsilons with up to three decimals and epsilons "
        "equal to sums of probabilities; exact quantile by sorting; for small instances the optimum over all points "
        "that satisfy scenarios of total probability at least 1-epsilon by enumeration")


def quantile(costs, proba, eps):
    """smallest cost v with P(cost <= v) >= eps + 1e-7; None if a sum lies within rounding distance"""
    best = None
    for v in sorted(set(costs)):
        tot = math.fsum(p for c, p in zip(costs, proba) if c <= v)
        if abs(tot - (eps + 1e-7)) < 1e-11:
            return None, False
        if tot >= eps + 1e-7:
            return v, True
    return best, True


def bound(H):
    import numpy as np
    rng = H.rng
    U = repo('src.UpperBounder').UpperBounder(None, None, None)
    for it in range(H.scale(6000, 100000)):
        if not H.more(0.4):
            break
        S = rng.randint(1, 12) if it % 3 else rng.randint(1, 200)
        kind = rng.choice(['int', 'real', 'neg', 'same', 'tenth'])
        costs = [dict(int=float(rng.randint(0, 5)), real=rng.random() * 100, neg=rng.uniform(-50, 50), same=7.25,
                      tenth=rng.randint(0, 100) / 10)[kind] for _ in range(S)]
        if rng.random() < 0.5:
            proba = [1 / S] * S
            eps = rng.choice([common.rand_eps(rng, S), rng.randrange(S) / S, round(rng.randrange(S) / S, 6)])
        else:
            w = [rng.randint(1, 6) for _ in range(S)]
            proba = [x / sum(w) for x in w]
            k = rng.randrange(S)
            eps = rng.choice([round(rng.random() * 0.95, 3), math.fsum(sorted(proba)[:k]),
                              math.fsum(rng.sample(proba, k))])
        if eps >= 1 - 1e-6:
            eps = 0.5
        want, ok = quantile(costs, proba, eps)
        if not ok:
            continue
        inp = dict(costs=costs, proba=proba, epsilon=eps)
        H.case((tuple(costs), tuple(proba), eps), inp, nontrivial=len(set(costs)) > 1)
        c = list(costs) if rng.random() < 0.4 else np.array(costs)
        p = list(proba) if rng.random() < 0.3 else np.array(proba)
        got = H.call('ahmed_et_al_bound', inp, U.ahmed_et_al_bound, c, p, eps)
        H.check(got is not None and float(got) == want, 'quantile bound', inp, got, want)
        H.check(list(c) == costs and list(p) == proba, 'arguments left alone', inp)


def valid(H):
    """no chance-feasible point above the bound, real scenario costs"""
    import itertools
    import numpy as np
    rng = H.rng
    U = repo('src.UpperBounder').UpperBounder(None, None, None)
    E = repo('src.Evaluator').Evaluator
    for _ in range(H.scale(60, 1500)):
        if not H.more(0.9):
            break
        S = rng.randint(1, 6)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 2), n=rng.randint(1, 4))
        if rng.random() < 0.5:
            w = np.array([rng.randint(1, 5) for _ in range(S)], dtype=float)
            ci.proba = w / w.sum()
        eps = ci.get_epsilon()
        inp = common.describe(ci)
        costs = H.call('scenario costs', inp, E(ci).get_all_single_scenario_costs)
        got = H.call('ahmed_et_al_bound', inp, U.ahmed_et_al_bound, costs, ci.get_proba(), eps)
        best = -math.inf
        for r in range(S + 1):
            for T in itertools.combinations(range(S), r):
                if math.fsum(float(ci.proba[s]) for s in T) >= 1 - eps - 1e-9:
                    v = common.scen_max(ci, T)
                    best = max(best, v[0])
        H.case(str(inp), dict(S=S, epsilon=eps, bound=got, optimum=best))
        H.check(got is not None and got >= best - 1e-6 * max(1, abs(best)), 'bound at least the optimum', inp, got, best)


def used(H):
    """the bounds set by the methods from real scenario costs"""
    rng = H.rng
    AP = repo('src.solver.AdaptivePartitioner').AdaptivePartitioner
    E = repo('src.Evaluator').Evaluator
    for _ in range(H.scale(40, 600)):
        ci = common.rand_instance(rng, S=rng.randint(2, 12), n=3, m=2)
        inp = common.describe(ci)
        m = H.call('AdaptivePartitioner', inp, lambda: AP(ci, initial_partition_type='cost'))
        costs = H.call('scenario costs', inp, E(ci).get_all_single_scenario_costs)
        w, ok = quantile([float(c) for c in costs], [float(p) for p in ci.proba], ci.epsilon)
        H.case(str(inp))
        if ok:
            H.check(common.close(m.vUB, w, 1e-7), 'initial upper bound of the adaptive method', inp, m.vUB, w)


PARTS = [bound, valid, used]
