"""C08: subset costs and solutions follow the partition; when and what is merged"""
import random
from copy import deepcopy

import common
import adaptive

RULE = ("real runs of all configurations (merging on and off, both refiners): after every split, merge, iteration and at the end "
        "the stored costs and solutions against an independent model of each subset, the loaded partition against the "
        "current one, and every merge against the conditions for it; half of the merge steps see an upper bound slightly below "
        "the largest new cost")


class State:
    pass


def runs(H):
    rng = H.rng
    for it in range(H.scale(120, 3000)):
        if not H.more(0.92):
            return
        ci, o, so, seed = adaptive.hard(rng) if it % 4 else adaptive.pick(rng)
        if it % 3:
            so = dict(so, use_merger=True)
        watch(H, it, ci, o, so, seed)


def watch(H, it, ci, o, so, seed):
    cache = {}
    st = State()
    st.pending = None
    tight = random.Random(seed)
    S = ci.nb_scenarios
    k = common.tol_count(ci.epsilon, S)

    def cost(sub):
        key = frozenset(sub)
        if key not in cache:
            cache[key] = common.scen_max(ci, sorted(key))[0]
        return cache[key]

    def consistent(rec, where):
        import numpy as np
        m = rec.m
        inp = dict(rec.inp(), partition=deepcopy(m.partition), at=where)
        H.case((it, where, len(rec.events)), dict(seed=seed, at=where))
        rec.events.append(where)
        part = m.partition
        H.check(len(m.subset_costs) == len(part) and len(m.subset_sols) == len(part), 'one cost and one solution per subset', inp,
                (len(m.subset_costs), len(m.subset_sols)), len(part))
        H.check(m.nb_subsets == len(part), 'number of subsets', inp, m.nb_subsets)
        P = m.chance_instance_part
        H.check(P.get_nb_scenarios() == len(part), 'loaded number of subsets', inp, P.get_nb_scenarios(), len(part))
        for i, sub in enumerate(part):
            H.check(common.close(float(m.subset_costs[i]), cost(sub), 1.5e-4), 'stored cost is that of the subset', dict(inp, subset=i),
                    float(m.subset_costs[i]), cost(sub))
            x = np.asarray(m.subset_sols[i], dtype=float)
            ok = all(not common.violated(ci.matrices_A, ci.vectors_b, x, s, 1e-5) for s in sub) and \
                common.close(float(np.dot(ci.vector_c, x)), float(m.subset_costs[i]), 1e-5)
            H.check(ok, 'stored solution is one of the subset and attains its cost', dict(inp, subset=i), x)
            A = np.vstack([np.asarray(ci.matrices_A[s]) for s in sub])
            H.check(np.array_equal(np.asarray(P.get_matrix_A(i)), A), 'the current partition is loaded', dict(inp, subset=i))

    def refined(rec, args, out, tok):
        m = rec.m
        x = args.get('x_UB')
        bad = {s for s in range(S) if common.violated(ci.matrices_A, ci.vectors_b, x, s)}
        edge = {s for s in range(S) if common.violated(ci.matrices_A, ci.vectors_b, x, s, 0.9999e-6)} != bad
        mu = len(out[1]) - len(args['partition'])
        st.pending = None if edge else (deepcopy(out[1]), bad, mu, [int(c) for c in m.refiner.new_subsets], float(m.vUB))

    def merged(rec):
        """compare the partition with the one right after the last split"""
        if st.pending is None:
            return
        part, bad, mu, new, vUB = st.pending
        st.pending = None
        now = rec.m.partition
        inp = dict(rec.inp(), after_split=part, now=deepcopy(now), vUB=vUB)
        if [list(s) for s in now] == [list(s) for s in part]:
            return
        H.check(bool(so.get('use_merger')), 'merging only when requested', inp)
        H.check(all(cost(part[c]) <= vUB + 1e-4 * max(1, abs(vUB)) for c in new), 'merging only if no new subset costs more than the upper bound',
                inp, [cost(part[c]) for c in new], vUB)
        keep = [frozenset(s) for s in now]
        src = [c for c in range(len(part)) if frozenset(part[c]) not in keep]
        feas = [c for c in range(len(part)) if not set(part[c]) & bad]
        inf = [c for c in range(len(part)) if set(part[c]) & bad]
        if set(src) <= set(feas):
            H.check(len(src) == mu + 1, 'mu+1 feasible subsets are merged', inp, src, mu + 1)
        else:
            top = [c for c in src if c in inf]
            H.check(len(top) == 1 and set(feas) == set(src) - set(top) and
                    cost(part[top[0]]) >= max(cost(part[c]) for c in inf) - 2e-4 * max(1, abs(vUB)),
                    'all feasible subsets and the most expensive infeasible one are merged', inp, src,
                    dict(feasible=feas, costs=[cost(p) for p in part]))

    def split(rec, args, out, tok):
        consistent(rec, 'split')

    def lower(rec, args):
        """now and then: an upper bound a little below the largest cost of a new subset"""
        m = rec.m
        if tight.random() > 0.5 or not m.refiner.new_subsets:
            return None
        top = max(float(m.subset_costs[c]) for c in m.refiner.new_subsets)
        was, m.vUB = m.vUB, top - tight.choice([1e-3, 1e-2, 0.08, 0.5]) * max(1.0, abs(top) / 100)
        return was, m.vUB, top, deepcopy(m.partition)

    def merge(rec, args, out, tok):
        if tok is not None:
            rec.m.vUB, low, top, part = tok
            H.check([list(s) for s in rec.m.partition] == [list(s) for s in part], 'no merge if a new subset costs more than the upper bound',
                    dict(rec.inp(), after_split=part, upper_bound=low, largest_new_cost=top), rec.m.partition)
        consistent(rec, 'merge')
        merged(rec)

    def iteration(rec, args, out, tok):
        consistent(rec, 'iteration')
        merged(rec)
    R = adaptive.Recorder(ci, o, so, seed, hooks={'refine': refined, 'split': split, 'merge': merge, 'merge:before': lower, 'iteration': iteration})
    try:
        H.call('run', R.inp(), lambda: (R.build(), R.solve()))
    except Exception as e:
        if common.is_gurobi_limit(e):
            return
        raise
    iteration(R, None, None, None)


PARTS = [runs]
