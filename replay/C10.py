"""C10: CCLPModel accepts exactly the stated set; pruning, warm starts, lazy flags"""
import itertools
import math
import common
import grbview
from common import repo

RULE = ("models built from plain and partitioned random instances with indicators and with given big-M values (negative "
        "ones included), all 0/1 vectors z for up to 5 subsets, grid and boundary points x; warm starts, lazy flags and "
        "pruning; optimal values of solve_cclp_model by enumeration")


class Finder:
    def __init__(self, M):
        self.M = M

    def get_vector_big_M(self, s):
        return self.M[s]


def viol(ci, sub, x):
    """violations of all constraints of a list of scenarios"""
    return [sum(float(p) * q for p, q in zip(ci.matrices_A[s, i], x)) - float(ci.vectors_b[s, i])
            for s in sub for i in range(len(ci.vectors_b[s]))]


def make(rng):
    S = rng.randint(1, 6)
    ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(1, 4), eps=rng.choice([0.0, 0.2, 0.25, 0.34, 0.5, 0.6, 0.8]))
    import numpy as np
    if rng.random() < 0.5:
        ci.vectors_b = ci.vectors_b + np.array([[rng.randint(0, 40) / 10] for _ in range(S)])
    if rng.random() < 0.35:
        w = np.array([rng.randint(1, 5) for _ in range(S)], dtype=float)
        ci.proba = w / w.sum()
    if rng.random() < 0.5:
        P = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance(ci)
        part = common.rand_partition(rng, S)
        with common.quiet():
            P.load_partition(len(part), part)
        pm = [min(float(ci.proba[s]) for s in p) for p in part]
        tot = sum(pm)
        return ci, P, part, [v / tot for v in pm], ci.epsilon / tot
    return ci, ci, [[s] for s in range(S)], [float(v) for v in ci.proba], ci.epsilon


def xs(rng, ci, k):
    import C09
    rows = [(ci.matrices_A[s, i], ci.vectors_b[s, i]) for s in range(ci.nb_scenarios) for i in range(len(ci.vectors_b[s]))]
    return C09.points(rng, ci, rows, k)


def box(ci, x):
    return all(0 <= a <= 1 and (ci.continuous_var or a in (0.0, 1.0)) for a in x)


def zs(rng, K):
    if K <= 5:
        return list(itertools.product([0, 1], repeat=K))
    return [tuple(int(rng.random() < 0.6) for _ in range(K)) for _ in range(25)]


def chance(z, p, eps):
    t = math.fsum(a for a, b in zip(p, z) if b) - (1 - eps)
    return None if abs(t) < 1e-9 and t != 0 else t >= 0


def objective(H, V, ci, x, inp):
    w = sum(float(c) * a for c, a in zip(ci.vector_c, x))
    H.check(V.sense == -1 and abs(V.objective(0, x) - w) < 1e-6, 'objective of the model', dict(inp, x=x), V.objective(0, x), w)


def view(cm, ci, K):
    return grbview.View(cm.grb_model, [grbview.listvars(cm.var_x, ci.nb_vars), grbview.listvars(cm.var_z, K)])


def starts(rng, K):
    return rng.choice([None, {}, {rng.randrange(K): 1}, {k: 1 for k in range(K) if rng.random() < 0.5}])


def indicator(H):
    rng = H.rng
    CM = repo('src.optim.CCLPModel').CCLPModel
    for it in range(H.scale(150, 3000)):
        if not H.more(0.35):
            break
        ci, P, part, p, eps = make(rng)
        K = len(part)
        st = starts(rng, K)
        lazy = rng.random() < 0.3
        inp = dict(common.describe(ci), partition=part, z_start=st, lazy=lazy, how='indicator')
        cm = H.call('CCLPModel', inp, CM, P, None)
        H.call('build', inp, cm.build, use_big_M=False, use_lazy=lazy, verbose=False, z_start=st)
        fixed = set(rng.sample(range(K), rng.randint(1, K))) if rng.random() < 0.4 else set()
        for k in fixed:
            H.call('fix_z_to_zero', inp, cm.fix_z_to_zero, k)
        inp['pruned'] = sorted(fixed)
        V = view(cm, ci, K)
        for x in xs(rng, ci, 10):
            vs = [max(viol(ci, sub, x)) for sub in part]
            if any(1e-9 < v < 1e-4 for v in vs):
                continue
            objective(H, V, ci, x, inp)
            for z in zs(rng, K):
                ch = chance(z, p, eps)
                if ch is None:
                    continue
                want = box(ci, x) and ch and all(v <= 1e-9 for v, b in zip(vs, z) if b) and not any(z[k] for k in fixed)
                H.case((it, tuple(x), z), dict(partition=part, x=x, z=z))
                got = V.accepts(x, z)
                H.check(got == want, 'accepted (x, z)', dict(inp, x=x, z=z), got, want)


def bigm(H):
    import numpy as np
    rng = H.rng
    CM = repo('src.optim.CCLPModel').CCLPModel
    for it in range(H.scale(200, 4000)):
        if not H.more(0.7):
            break
        ci, P, part, p, eps = make(rng)
        K = len(part)
        pts = [x for x in xs(rng, ci, 10)]
        kind = rng.choice(['naive', 'random', 'tight', 'mixed'])
        M = []
        ref = rng.choice([x for x in pts if box(ci, x)] or [[0.0] * ci.nb_vars])
        for sub in part:
            nv = viol(ci, sub, [1.0] * ci.nb_vars)
            tv = viol(ci, sub, ref)
            row = []
            for a, t in zip(nv, tv):
                row.append(dict(naive=a, random=rng.uniform(-3, 5), tight=t,
                                mixed=rng.choice([a, t, rng.uniform(-2, 3), -1e-7, 0.0, t + 0.5]))[kind])
            M.append(np.array(row))
        st, lazy = starts(rng, K), rng.random() < 0.5
        inp = dict(common.describe(ci), partition=part, z_start=st, lazy=lazy, bigM=M, how='big-M')
        cm = H.call('CCLPModel', inp, CM, P, Finder(M))
        H.call('build', inp, cm.build, use_big_M=True, use_lazy=lazy, verbose=False, z_start=st)
        fixed = set(rng.sample(range(K), rng.randint(1, K))) if rng.random() < 0.3 else set()
        for k in fixed:
            H.call('fix_z_to_zero', inp, cm.fix_z_to_zero, k)
        inp['pruned'] = sorted(fixed)
        V = view(cm, ci, K)
        for x in pts + [ref]:
            vs = [viol(ci, sub, x) for sub in part]
            objective(H, V, ci, x, inp)
            for z in zs(rng, K):
                ch = chance(z, p, eps)
                if ch is None:
                    continue
                got = V.accepts(x, z)
                H.case((it, tuple(x), z), dict(partition=part, x=x, z=z))
                bad = not box(ci, x) or not ch or any(z[k] for k in fixed) or any(
                    z[k] and v > 1e-4 and m >= -1e-6 for k in range(K) for v, m in zip(vs[k], M[k]))
                if bad:
                    H.check(not got, 'never accepts a point that breaks bounds, chance constraint or a selected subset', dict(inp, x=x, z=z))
                good = box(ci, x) and ch and not any(z[k] for k in fixed) and all(
                    (v <= 0 if z[k] else v <= m) and (m >= -1e-6 or v <= m) for k in range(K) for v, m in zip(vs[k], M[k]))
                if good:
                    H.check(got, 'never cuts off a point within the big-M values', dict(inp, x=x, z=z))


def best(ci, part, p, eps, fixed):
    b = -math.inf
    for z in itertools.product([0, 1], repeat=len(part)):
        if any(z[k] for k in fixed) or not chance(z, p, eps):
            continue
        v = common.scen_max(ci, [s for k, sub in enumerate(part) if z[k] for s in sub])
        if v is not None:
            b = max(b, v[0])
    return b


def solved(H):
    rng = H.rng
    Sv = repo('src.solver.Solver').Solver
    BM = repo('src.BigMFinder').BigMFinder
    for it in range(H.scale(80, 1500)):
        if not H.more(0.95):
            break
        ci, P, part, p, eps = make(rng)
        K = len(part)
        if any(chance(z, p, eps) is None for z in itertools.product([0, 1], repeat=K)):
            continue
        fixed = sorted(rng.sample(range(K), rng.randint(0, K))) if rng.random() < 0.6 else []
        want = best(ci, part, p, eps, fixed)
        if want == -math.inf:
            continue
        inp = dict(common.describe(ci), partition=part, pruned=fixed)
        use = rng.random() < 0.6
        inp.update(use_big_M=use, use_lazy=use and rng.random() < 0.5, z_start=starts(rng, K))
        sv = H.call('Solver', inp, Sv, ci, 1000, 1e-4)
        import numpy as np
        r = H.call('solve_cclp_model', inp, lambda: sv.solve_cclp_model(
            P, BM(P) if use else None, z_start=inp['z_start'], prune_indices=np.array(fixed, dtype=int) if rng.random() < 0.5 else fixed,
            gap=1e-8, use_big_M=use, use_lazy=inp['use_lazy']))
        x, z, vo, vb = r
        H.case(str(inp), dict(partition=part, pruned=fixed, value=vo))
        H.check(common.close(vo, want, 1e-5) and common.close(vb, want, 1e-5), 'optimal value and bound', inp, (vo, vb), want)
        z = [int(round(float(v))) for v in z]
        H.check(len(z) == K and not any(z[k] for k in fixed) and chance(z, p, eps) is not False, 'indicator solution', inp, z)
        ok = all(max(viol(ci, part[k], [float(a) for a in x])) <= 1e-5 for k in range(K) if z[k])
        val = sum(float(c) * float(a) for c, a in zip(ci.vector_c, x))
        H.check(ok and common.close(val, vo, 1e-6), 'solution attains the value', inp, dict(x=x, z=z, value=vo))


PARTS = [indicator, bigm, solved]
