"""C07: merge_all and merge_feasible"""
import itertools
import common
from common import repo

RULE = ("merge_all for every candidate set (in sorted and shuffled order) of partitions with up to 6 subsets and random ones "
        "up to 30; merge_feasible on random partitioned instances (rows of zeros, ties), points and numbers of splits, "
        "margins recomputed from the instance")


def expect(part, cand):
    t = min(cand)
    new = []
    for i, s in enumerate(part):
        if i == t:
            new.append(None)
        elif i not in cand:
            new.append(list(s))
    pos = len([i for i in range(t) if i not in cand])
    return new, pos, [s for c in cand for s in part[c]]


def check(H, before, cand, out, inp):
    part, nb = out
    new, pos, union = expect(before, cand)
    H.check(nb == len(before) - len(cand) + 1, 'returned number of subsets', inp, nb, len(before) - len(cand) + 1)
    H.check(len(part) == len(new), 'number of subsets after the merge', inp, part, new)
    for k in range(len(new)):
        if k == pos:
            H.check(sorted(part[k]) == sorted(union), 'merged subset at the smallest candidate index', inp, part, new)
        else:
            H.check(list(part[k]) == new[k], 'other subsets unchanged and in order', inp, part, new)


def one(H, mg, before, cand, inp):
    part = [list(s) for s in before]
    out = H.call('merge_all', inp, mg.merge_all, part, list(cand))
    check(H, before, cand, out, inp)
    gone = sorted(int(d) for d in mg.deleted_subsets)
    H.check(gone == sorted(c for c in cand if c != min(cand)), 'recorded deleted subsets', inp, gone)


def small(H):
    mg = repo('src.Merger').Merger(None, None)
    for K in range(1, H.scale(6, 7) + 1):
        before = [[3 * k + q for q in range(1 + (k * 7 + K) % 3)] for k in range(K)]
        for r in range(1, K + 1):
            for cand in itertools.combinations(range(K), r):
                cand = list(cand)
                for sh in (False, True):
                    if sh:
                        H.rng.shuffle(cand)
                    inp = dict(partition=before, candidates=list(cand))
                    H.case((K, tuple(cand)), inp, nontrivial=r > 1)
                    one(H, mg, before, cand, inp)


def large(H):
    rng = H.rng
    mg = repo('src.Merger').Merger(None, None)
    for _ in range(H.scale(2000, 30000)):
        S = rng.randint(2, 60)
        before = common.rand_partition(rng, S)
        cand = rng.sample(range(len(before)), rng.randint(1, len(before)))
        inp = dict(partition=before, candidates=cand)
        H.case(str(inp), inp, nontrivial=len(cand) > 1)
        one(H, mg, before, cand, inp)


def margin(ci, sub, x):
    import numpy as np
    best = np.inf
    for s in sub:
        for i in range(len(ci.vectors_b[s])):
            a = np.asarray(ci.matrices_A[s, i], dtype=float)
            g = float(ci.vectors_b[s, i] - a @ x)
            r = float(np.sqrt((a * a).sum()))
            best = min(best, g / r if r != 0 else g)
    return best


def feasible(H):
    import numpy as np
    rng = H.rng
    PI = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance
    M = repo('src.Merger').Merger
    for _ in range(H.scale(1500, 30000)):
        if not H.more(0.9):
            break
        S = rng.randint(2, 12)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 4), n=rng.randint(1, 4))
        if rng.random() < 0.3:
            ci.vectors_b = ci.vectors_b + np.array([[rng.uniform(0, 5)] for _ in range(S)])
        if rng.random() < 0.2:
            ci.matrices_A[rng.randrange(S), 0] = 0.0
        before = common.rand_partition(rng, S)
        K = len(before)
        P = PI(ci)
        with common.quiet():
            P.load_partition(K, [list(s) for s in before])
        cand = rng.sample(range(K), rng.randint(1, K))
        if rng.random() < 0.6:
            cand = sorted(cand)
        mu = rng.randint(0, len(cand) - 1)
        x = np.array(common.rand_point(rng, ci.nb_vars, ci.continuous_var))
        if rng.random() < 0.3:
            x = x * 0.0
        inp = dict(common.describe(ci), partition=before, candidates=cand, mu=mu, x=x)
        H.case(str(inp), dict(partition=before, candidates=cand, mu=mu), nontrivial=0 < mu < len(cand) - 1)
        mg = M(ci, P)
        part = [list(s) for s in before]
        out = H.call('merge_feasible', inp, mg.merge_feasible, part, x, list(cand), mu)
        chosen = [i for i, s in enumerate(before) if list(s) not in [list(t) for t in out[0]]]
        if mu == 0:
            H.check([list(s) for s in out[0]] == before and out[1] == K, 'merging one subset changes nothing', inp, out[0], before)
            continue
        H.check(len(chosen) == mu + 1 and set(chosen) <= set(cand), 'mu+1 candidates are merged', inp, chosen)
        check(H, before, chosen, out, inp)
        mar = {c: margin(ci, before[c], x) for c in cand}
        low = min(mar[c] for c in chosen)
        for c in cand:
            if c not in chosen:
                H.check(mar[c] <= low + 1e-9, 'a candidate left out has no larger margin', inp, dict(chosen=chosen, margins=mar))


PARTS = [small, large, feasible]
