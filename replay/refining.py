"""Calls of `refine` on built and on real histories (shared by C05 and C06)."""
import random
from copy import deepcopy

import common
import adaptive
from common import repo


def instance(rng, S, bad, eps, wide):
    """one-variable scenarios, those in `bad` violated by x = 1"""
    A = [[[1.0 if s in bad else rng.choice([0.1, 0.2, 0.3])] + ([0.0, rng.randint(1, 9) / 10] if wide else [])] for s in range(S)]
    c = [round(rng.randint(1, 90) / 10, 1) for _ in A[0][0]]
    return common.load(A, [0.5], c, rng.random() < 0.5, eps)


def cases(H, check, budget):
    """random patterns of violated scenarios; both refiners; repeated calls on one object"""
    import numpy as np
    rng = H.rng
    R = repo('src.refiner.RandomRefiner').RandomRefiner
    C = repo('src.refiner.CostRefiner').CostRefiner
    for it in range(H.scale(700, 12000)):
        if not H.more(budget):
            return
        real = it % 4 == 3
        S = rng.randint(2, 9 if real else 30)
        if it % 5 == 0:
            S = rng.choice([10, 20, 25, 100 // rng.randint(1, 5)])
        if real:
            S = min(S, 12)
        eps = rng.choice([0.0, 0.1, 0.2, 0.29, 0.3, 0.5, 0.57, 0.58, 0.6, 0.7, round(rng.randrange(S) / S * 0.9, 2)])
        k = common.tol_count(eps, S)
        if k >= S:
            continue
        nbad = rng.randint(k + 1, S)
        bad = set(rng.sample(range(S), nbad))
        K = rng.randint(1, S)
        part = grouped(rng, S, bad, k)
        if part is None:
            continue
        ci = instance(rng, S, bad, eps, real)
        seed = rng.randrange(10 ** 6)
        cost = real or it % 2
        rf = C(ci, use_acc_obj=True) if cost else R(ci)
        if cost and not real:
            def split(sc, inf, rng=rng):
                sc, inf = list(sc), list(inf)
                a, b = rng.sample(inf, 2)
                left, right = [a], [b]
                for s in sc:
                    if s not in (a, b):
                        rng.choice([left, right]).append(s)
                return rng.choice([1.0, 5.0, rng.random() * 10]), sorted(left), sorted(right)
            rf.accurate_obj_split = split
        x = np.array([1.0] + ([0.0, 0.0] if real else []))
        H.call('check_feasibility', {}, ci.check_feasibility, x)
        for rep in range(3):
            rf.vUB = rng.choice([1e9, 5.0, 2.0, -1.0])
            rf.subset_costs = [rng.choice([rng.random() * 10, 3.0]) for _ in part]
            inp = dict(scenarios=S, epsilon=eps, violated=sorted(bad), partition=part, refiner='cost' if cost else 'random',
                       stubbed_split=bool(cost and not real), call=rep, costs=rf.subset_costs, vUB=rf.vUB, seed=seed)
            random.seed(seed + rep)
            H.case(str(inp), inp, nontrivial=True)
            before = deepcopy(part)
            given = deepcopy(part)
            out = H.call('refine', inp, rf.refine, given, x)
            check(H, inp, before, given, out, rf, S, bad, k)
            # a further call on the same object with another pattern of violated scenarios
            part = grouped(rng, S, bad, k)
            if part is None:
                break


def grouped(rng, S, bad, k):
    """a partition in which at most k subsets contain a violated scenario"""
    if k < 1:
        return None
    g = rng.randint(1, min(k, len(bad)))
    bad = list(bad)
    good = [s for s in range(S) if s not in set(bad)]
    rng.shuffle(bad)
    rng.shuffle(good)
    subs = [[b] for b in bad[:g]]
    for b in bad[g:]:
        rng.choice(subs[:rng.randint(1, g)]).append(b)
    extra = rng.randint(0, len(good))
    subs += [[s] for s in good[:extra]]
    for s in good[extra:]:
        rng.choice(subs).append(s)
    for s in subs:
        rng.shuffle(s)
        if rng.random() < 0.4:
            s.sort()
    rng.shuffle(subs)
    return subs


def runs(H, check, budget):
    """every refinement that happens during real runs"""
    rng = H.rng
    for it in range(H.scale(60, 1500)):
        if not H.more(budget):
            return
        ci, o, so, seed = adaptive.hard(rng)
        k = common.tol_count(ci.epsilon, ci.nb_scenarios)
        S = ci.nb_scenarios

        def before(rec, args):
            return deepcopy(args.get('partition'))

        def after(rec, args, out, tok):
            if tok is None:
                return
            bad = {s for s in range(S) if common.violated(ci.matrices_A, ci.vectors_b, args['x_UB'], s)}
            close = {s for s in range(S) if common.violated(ci.matrices_A, ci.vectors_b, args['x_UB'], s, 0.9999e-6)}
            if bad != close:
                return
            H.case((it, len(rec.events)), dict(seed=seed, options=o))
            rec.events.append(1)
            check(H, dict(rec.inp(), partition=tok, x=args['x_UB'], violated=sorted(bad)), tok, args['partition'], out,
                  rec.m.refiner, S, bad, k)
        r = adaptive.Recorder(ci, o, so, seed, hooks={'refine:before': before, 'refine': after})
        try:
            H.call('run', r.inp(), lambda: (r.build(), r.solve()))
        except Exception as e:
            if common.is_gurobi_limit(e):
                continue
            raise
