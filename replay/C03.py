"""C03: partitioned instance against a scenario by scenario aggregation"""
import common
from common import repo

RULE = ("random instances with distinct data per scenario, all partitions for S<=4 and random ones (unsorted subsets, "
        "list or array subsets) above, equal and unequal probabilities; partitions are reloaded on the same object")


def check(H, ci, P, part, inp):
    import copy
    import numpy as np
    S, n = ci.nb_scenarios, ci.nb_vars
    before = dict(A=ci.matrices_A.copy(), b=ci.vectors_b.copy(), c=ci.vector_c.copy(), p=ci.proba.copy(),
                  m=ci.nb_constraints.copy(), e=ci.epsilon, S=S)
    keep = [list(s) for s in part]
    H.call('load_partition', inp, P.load_partition, len(part), part)
    H.check(P.get_nb_scenarios() == len(part), 'number of subsets', inp, P.get_nb_scenarios(), len(part))
    pm = [min(float(before['p'][s]) for s in sub) for sub in keep]
    tot = sum(pm)
    for c, sub in enumerate(keep):
        rows = [before['A'][s, i] for s in sub for i in range(int(before['m'][s]))]
        rhs = [before['b'][s, i] for s in sub for i in range(int(before['m'][s]))]
        A = H.call('get_matrix_A', inp, P.get_matrix_A, c)
        H.check(np.array_equal(A, rows), 'rows of subset %d' % c, inp, A, rows)
        b = H.call('get_vector_b', inp, P.get_vector_b, c)
        H.check(np.array_equal(b, rhs), 'right-hand sides of subset %d' % c, inp, b, rhs)
        k = H.call('get_nb_constraints', inp, P.get_nb_constraints, c)
        H.check(int(k) == len(rows), 'number of constraints of subset %d' % c, inp, k, len(rows))
    p = [float(v) for v in H.call('get_proba', inp, P.get_proba)]
    H.check(len(p) == len(keep) and all(abs(a - b / tot) < 1e-9 for a, b in zip(p, pm)), 'subset probabilities', inp, p,
            [v / tot for v in pm])
    H.check(abs(sum(p) - 1) < 1e-9, 'subset probabilities sum to one', inp, p)
    e = H.call('get_epsilon', inp, P.get_epsilon)
    H.check(abs(e - before['e'] / tot) < 1e-9, 'epsilon of the partition', inp, e, before['e'] / tot)
    H.check([list(s) for s in part] == keep, 'the partition is left alone', inp, part, keep)
    for nm, now in [('A', ci.matrices_A), ('b', ci.vectors_b), ('c', ci.vector_c), ('p', ci.proba), ('m', ci.nb_constraints)]:
        H.check(np.array_equal(before[nm], now), 'the underlying instance is left alone (%s)' % nm, inp, now, before[nm])
    H.check(ci.epsilon == before['e'] and ci.get_nb_scenarios() == S, 'the underlying instance is left alone', inp)
    for s in range(S):
        H.check(np.array_equal(ci.get_matrix_A(s), before['A'][s]) and np.array_equal(ci.get_vector_b(s), before['b'][s])
                and ci.get_nb_constraints(s) == before['m'][s], 'getters of the underlying instance', inp)
    H.check(np.array_equal(ci.get_proba(), before['p']) and ci.get_epsilon() == before['e'],
            'probabilities of the underlying instance', inp)
    H.check(np.array_equal(P.get_vector_c(), before['c']) and P.get_nb_vars() == n, 'objective of the partitioned instance', inp)


def make(rng, S, m, n):
    import numpy as np
    A = [[[round(1 + s * 7.0 + i * 1.3 + j * 0.1, 1) for j in range(n)] for i in range(m)] for s in range(S)]
    b = [round(5.0 + 3 * i, 1) for i in range(m)]
    ci = common.load(A, b, [1.0 + j for j in range(n)], rng.random() < 0.5, common.rand_eps(rng, S))
    ci.vectors_b = ci.vectors_b + np.arange(S)[:, None] * 0.5
    if rng.random() < 0.3:
        p = np.array([rng.randint(1, 9) for _ in range(S)], dtype=float)
        ci.proba = p / p.sum()
    return ci


def every(H):
    P_ = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance
    for S in range(1, H.scale(5, 6)):
        for m, n in [(1, 1), (2, 3), (3, 2)]:
            ci = make(H.rng, S, m, n)
            P = P_(ci)
            for part in common.all_partitions(S):
                part = [H.rng.sample(s, len(s)) for s in part]
                inp = dict(instance=common.describe(ci), partition=part)
                H.case((S, m, n, str(part)), dict(S=S, m=m, n=n, partition=part))
                check(H, ci, P, part, inp)


def rnd(H):
    import numpy as np
    rng = H.rng
    P_ = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance
    for _ in range(H.scale(300, 8000)):
        if not H.more(0.9):
            return
        S, m, n = rng.randint(1, 12), rng.randint(1, 4), rng.randint(1, 5)
        ci = make(rng, S, m, n)
        P = P_(ci)
        for _ in range(3):
            part = common.rand_partition(rng, S)
            inp = dict(instance=common.describe(ci), partition=part)
            H.case((S, m, n, str(part)), dict(S=S, m=m, n=n, partition=part))
            check(H, ci, P, part, inp)


def allowance(H):
    """at most as many subsets may be violated as scenarios in the original problem"""
    rng = H.rng
    P_ = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance
    for _ in range(H.scale(200, 3000)):
        if not H.more(0.97):
            return
        S = rng.randint(1, 40)
        eps = common.rand_eps(rng, S)
        ci = common.load([[[1.0]] for _ in range(S)], [1.0], [1.0], True, eps)
        P = P_(ci)
        part = common.rand_partition(rng, S)
        inp = dict(S=S, epsilon=eps, partition=part)
        H.call('load_partition', inp, P.load_partition, len(part), part)
        k = common.tol_count(eps, S)
        p, e = P.get_proba(), P.get_epsilon()
        got = max([q for q in range(len(part) + 1) if sum(sorted(p)[:q]) <= e + 1e-9])
        H.case((S, eps, len(part)), inp)
        H.check(got == min(k, len(part)), 'subsets that may be violated', inp, got, min(k, len(part)))


PARTS = [every, rnd, allowance]
