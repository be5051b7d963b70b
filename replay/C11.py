"""C11: naive and Belotti big-M values"""
import itertools
import common
from common import repo

RULE = ("plain and partitioned instances with random nonnegative data (zeros, ties, zero objective entries), both variable "
        "types, upper bounds from zero to above the total; largest violation by a linear program or over all binary points; "
        "updates after other partitions, bounds and methods on the same object")


def worst(a, b, c, cont, ub):
    """largest violation over points with objective at most ub"""
    n = len(c)
    if cont:
        v = common.lp_max(a, [c], [ub], True, n)
        return None if v is None else v[0] - b
    best = None
    for x in itertools.product([0.0, 1.0], repeat=n):
        if sum(p * q for p, q in zip(c, x)) <= ub + 1e-9:
            v = sum(p * q for p, q in zip(a, x)) - b
            best = v if best is None else max(best, v)
    return best


def rows(ci, sub):
    return [([float(v) for v in ci.matrices_A[s, i]], float(ci.vectors_b[s, i])) for s in sub for i in range(len(ci.vectors_b[s]))]


def check(H, f, ci, part, ub, method, inp):
    c = [float(v) for v in ci.vector_c]
    cont = bool(ci.continuous_var)
    for k, sub in enumerate(part):
        M = [float(v) for v in H.call('get_vector_big_M', inp, f.get_vector_big_M, k)]
        rs = rows(ci, sub)
        H.check(len(M) == len(rs), 'one big-M per constraint', dict(inp, subset=k), M, len(rs))
        for j, (a, b) in enumerate(rs):
            if method == 'naive':
                w = sum(a) - b
                H.check(M[j] >= w - 1e-9, 'naive big-M at least the largest violation', dict(inp, subset=k, constraint=j), M[j], w)
                continue
            w = worst(a, b, c, cont, ub)
            if w is None:
                continue
            H.check(M[j] >= w - 1e-6 * max(1, abs(w)), 'big-M at least the largest violation', dict(inp, subset=k, constraint=j), M[j], w)
            if cont and ub >= 0:
                H.check(M[j] <= w + 1e-6 * max(1, abs(w)), 'big-M equals the largest violation', dict(inp, subset=k, constraint=j), M[j], w)


def bounds(rng, ci):
    t = float(sum(ci.vector_c))
    return rng.choice([0.0, t, t * 1.5 + 1, t * rng.random(), t * rng.random(), t / 2, float(ci.vector_c[0]), round(t * 0.3, 1)])


def run(H):
    rng = H.rng
    B = repo('src.BigMFinder').BigMFinder
    PI = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance
    for it in range(H.scale(250, 6000)):
        if not H.more(0.9):
            break
        S = rng.randint(1, 6)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(1, 5))
        import numpy as np
        if rng.random() < 0.5:
            ci.vectors_b = ci.vectors_b + np.array([[rng.randint(0, 30) / 10] for _ in range(S)])
        if rng.random() < 0.3:
            ci.vector_c[rng.randrange(ci.nb_vars)] = 0.0
        data = common.describe(ci)
        single = [[s] for s in range(S)]
        f = H.call('BigMFinder', data, B, ci)
        check(H, f, ci, single, None, 'naive', dict(data, how='initial'))
        ub = bounds(rng, ci)
        inp = dict(data, upper_bound=ub, how='run_belotti_et_al_big_M')
        H.case(str(inp), dict(upper_bound=ub, S=S))
        H.call('run_belotti', inp, f.run_belotti_et_al_big_M, ub)
        check(H, f, ci, single, ub, 'belotti', inp)
        if rng.random() < 0.4:
            ub = bounds(rng, ci)
            inp = dict(inp, second_bound=ub)
            H.call('run_belotti', inp, f.run_belotti_et_al_big_M, ub)
            check(H, f, ci, single, ub, 'belotti', inp)
        P = PI(ci)
        hist = []
        f = None
        for _ in range(3):
            part = common.rand_partition(rng, S)
            with common.quiet():
                P.load_partition(len(part), part)
            if f is None:
                f = H.call('BigMFinder', data, B, P)
            ub, method = bounds(rng, ci), rng.choice(['belotti', 'belotti', 'naive', 'song'])
            hist.append((part, ub, method))
            inp = dict(data, history=hist)
            H.case(str(inp), dict(partition=part, upper_bound=ub, method=method))
            H.call('update_big_M', inp, f.update_big_M, len(part), ub, method=method, chance_instance=ci, partition=part)
            if method != 'song':
                check(H, f, ci, part, ub, method, inp)


def negative(H):
    """a negative upper bound is not attained by any point; the value must still be usable"""
    rng = H.rng
    B = repo('src.BigMFinder').BigMFinder
    for it in range(H.scale(20, 200)):
        ci = common.rand_instance(rng, S=2, m=2, n=3, cont=True)
        f = B(ci)
        inp = dict(common.describe(ci), upper_bound=-1.0)
        H.case(str(inp))
        H.call('run_belotti', inp, f.run_belotti_et_al_big_M, -1.0)


PARTS = [run, negative]
