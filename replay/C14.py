"""C14: projection step and incumbent search of LowerBounder"""
import math
import common
import adaptive
from common import repo

RULE = ("projection steps on random instances (equal and unequal probabilities, ties, both indices) for sequences of points and "
        "lower bounds on one object: selected scenarios, bound and solution against an independent model; incumbent search "
        "on random candidate lists with ties and values at the bounds; stored lower bounds during runs")


def index(ci, x):
    import numpy as np
    out = []
    for s in range(ci.nb_scenarios):
        w = 0.0
        for i in range(ci.vectors_b.shape[1]):
            a = np.asarray(ci.matrices_A[s, i], dtype=float)
            v = max(float(a @ x - ci.vectors_b[s, i]), 0.0)
            if abs(v - 1e-3) < 1e-9:
                return None
            if v < 1e-3:
                v = 0.0
            r = float(np.sqrt((a * a).sum()))
            w = max(w, v / r if r != 0 else v)
        out.append(w)
    return out


def attained(ci, x, v, tol=1e-5):
    """x within bounds, chance-feasible (up to solver tolerance), objective v"""
    if x is None:
        return False
    x = [float(a) for a in x]
    if any(a < -1e-6 or a > 1 + 1e-6 for a in x) or (not ci.continuous_var and any(abs(a - round(a)) > 1e-5 for a in x)):
        return False
    p = math.fsum(float(ci.proba[s]) for s in range(ci.nb_scenarios) if not common.violated(ci.matrices_A, ci.vectors_b, x, s, 1e-4))
    return p >= 1 - ci.epsilon - 2e-7 and common.close(sum(float(c) * a for c, a in zip(ci.vector_c, x)), float(v), tol)


def selection(H, ci, idx, sel, inp):
    sel = [int(s) for s in sel]
    H.check(len(set(sel)) == len(sel) and all(0 <= s < ci.nb_scenarios for s in sel), 'selected scenarios are distinct scenarios', inp, sel)
    p = math.fsum(float(ci.proba[s]) for s in sel)
    H.check(p >= 1 - ci.epsilon - 1.01e-7, 'selected scenarios have total probability at least 1-epsilon', inp, dict(selected=sel, total=p))
    out = [s for s in range(ci.nb_scenarios) if s not in sel]
    if sel and out:
        H.check(min(idx[s] for s in out) >= max(idx[s] for s in sel) - 1e-9, 'no scenario left out ranks before a selected one', inp,
                dict(selected=sel, index=idx))


def project(H):
    import numpy as np
    rng = H.rng
    L = repo('src.LowerBounder').LowerBounder
    for it in range(H.scale(200, 5000)):
        if not H.more(0.4):
            break
        S = rng.randint(1, 10)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(1, 5), eps=rng.choice([0.0, 0.1, 0.2, 0.25, 0.29, 0.3, 0.5, 0.7]))
        if rng.random() < 0.5:
            ci.vectors_b = ci.vectors_b + np.array([[rng.randint(0, 40) / 10] for _ in range(S)])
        if rng.random() < 0.3:
            w = np.array([rng.randint(1, 6) for _ in range(S)], dtype=float)
            ci.proba = w / w.sum()
        if rng.random() < 0.3:
            # level just above what some scenarios reach together
            p = math.fsum(float(ci.proba[q]) for q in rng.sample(range(S), rng.randint(0, S)))
            ci.epsilon = min(max(0.0, 1 - p - rng.choice([7e-4, 5e-5, 4e-6, 5e-7])), 0.95)
        meth = rng.choice(['rescaled_max_violation', 'rescaled_max_violation', 'counter'])
        lb = H.call('LowerBounder', common.describe(ci), L, ci, meth)
        count = np.zeros(S)
        vLB = -np.inf
        hist = []
        for k in range(4):
            x = np.array(common.rand_point(rng, ci.nb_vars, ci.continuous_var))
            if rng.random() < 0.3:
                x = np.ones(ci.nb_vars)
            H.call('check_feasibility', {}, ci.check_feasibility, x)
            fs = ci.get_feasible_scenarios()
            count = count + np.array([1.0 if b else 0.0 for b in fs])
            H.call('save_feasible_scenarios', {}, lb.save_feasible_scenarios, fs)
            idx = index(ci, x) if meth != 'counter' else [-float(c) for c in count]
            hist.append(dict(x=x, vLB=vLB))
            inp = dict(common.describe(ci), method=meth, history=hist)
            if idx is None:
                break
            lb.vLB = vLB
            H.case(str(inp), dict(method=meth, S=S, step=k))
            xl, v = H.call('deterministic_bound', inp, lb.deterministic_bound, x)
            sel = getattr(lb, 'scenarios', None)
            if sel is None:
                H.skip('selected scenarios not visible')
                break
            selection(H, ci, idx, sel, inp)
            best = common.scen_max(ci, sel)
            if xl is None:
                H.check(v < 0 and v < vLB and best[0] < vLB + 1e-6, 'no solution reported only if none reaches the lower bound', inp, v, best)
            else:
                # a value below the current bound only matters as such
                if best[0] > vLB + 1e-6:
                    H.check(common.close(float(v), best[0], 2e-4), 'bound of the model restricted to the selected scenarios', inp, v, best[0])
                H.check(attained(ci, xl, v, 1e-4), 'solution attains the bound and is chance-feasible', inp, dict(x=xl, v=v))
            if rng.random() < 0.8 and v > vLB:
                vLB = float(v)
            elif rng.random() < 0.5:
                o = common.cclp_opt(ci)[0] if S <= 6 else vLB
                vLB = max(vLB, o * rng.choice([0.9, 1.0, 0.5])) if o > 0 else vLB


def incumbents(H):
    import numpy as np
    rng = H.rng
    L = repo('src.LowerBounder').LowerBounder
    for it in range(H.scale(120, 2500)):
        if not H.more(0.6):
            break
        S = rng.randint(1, 8)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 2), n=rng.randint(1, 4), style='ties' if it % 2 else None)
        lb = H.call('LowerBounder', {}, L, ci)
        n = ci.nb_vars
        whole = all(float(c).is_integer() for c in ci.vector_c)
        for _ in range(12):
            cand = [np.array(common.rand_point(rng, n, ci.continuous_var)) * rng.choice([1.0, 1.0, 0.5 if ci.continuous_var else 1.0]) for _ in range(rng.randint(0, 7))]
            if cand and rng.random() < 0.3:
                cand.append(cand[0].copy())
            obj = [float(np.dot(ci.vector_c, x)) for x in cand]
            vLB = rng.choice([-np.inf, -1e6, 0.0] + obj + [o - 0.5 for o in obj])
            vUB = rng.choice([np.inf] + obj + [o + 0.5 for o in obj] + [vLB if vLB > -1e6 else 5.0])
            inp = dict(common.describe(ci), candidates=cand, vUB=vUB, vLB=vLB)
            H.case(str(inp), dict(candidates=len(cand), vUB=vUB, vLB=vLB), nontrivial=bool(cand))
            k = common.tol_count(ci.epsilon, S)
            ok, x, v = H.call('incumbent_bound', inp, lb.incumbent_bound, [c.copy() for c in cand], vUB, vLB)
            exact = whole and all(float(a).is_integer() for c in cand for a in c)
            # a candidate at the bound up to rounding is undecidable unless the arithmetic is exact
            if not exact and any(abs(o - vUB) < 1e-9 or abs(o - vLB) < 2e-8 for o in obj):
                continue
            good = [o for o, c in zip(obj, cand) if vLB < o <= vUB and
                    sum(common.violated(ci.matrices_A, ci.vectors_b, c, s) for s in range(S)) <= k]
            if not good:
                H.check(not ok, 'nothing is accepted without an improving feasible candidate', inp, (ok, x, v))
                continue
            H.check(bool(ok), 'an improving feasible candidate is accepted', inp, ok, max(good))
            H.check(abs(v - max(good)) < 1e-7 and any(np.array_equal(x, c) and abs(o - v) < 1e-9 for c, o in zip(cand, obj)),
                    'the best candidate is accepted', inp, (x, v), max(good))
            H.check(sum(common.violated(ci.matrices_A, ci.vectors_b, x, s) for s in range(S)) <= k, 'accepted candidate is feasible', inp, x)


def runs(H):
    rng = H.rng
    for it in range(H.scale(80, 1500)):
        if not H.more(0.9):
            break
        ci, o, so, seed = adaptive.hard(rng) if it % 3 else adaptive.pick(rng)
        o = dict(o, projection_method=rng.choice(['counter', 'rescaled_max_violation']))

        def look(rec, args, out, tok):
            m = rec.m
            if m.vLB > -math.inf:
                H.check(attained(ci, m.xLB, m.vLB), 'stored lower bound is attained by the stored solution', dict(rec.inp(), xLB=m.xLB, vLB=m.vLB))
        hooks = {k: look for k in ('split', 'merge', 'lower', 'upper', 'iteration', 'info')}
        R = adaptive.Recorder(ci, o, so, seed, hooks=hooks)
        H.case((it, seed), dict(seed=seed, options=o))
        try:
            H.call('run', R.inp(), lambda: (R.build(), R.solve()))
        except Exception as e:
            if common.is_gurobi_limit(e):
                continue
            raise
        look(R, None, None, None)


PARTS = [project, incumbents, runs]
