"""C19: the split model by enumeration of all splits; memory and choice of the cost refiner"""
import itertools
import random
import common
from common import repo

RULE = ("split models for random subsets of up to 6 scenarios: optimum, assignment and the optimum of every single assignment "
        "against linear programs; the cost refiner with a deterministic stand-in for the split model (costs distinct per "
        "scenario set and violated set) on random partitions and repeated calls")


def side(ci, scen):
    import numpy as np

    class C:
        pass
    rows = [ci.matrices_A[s, i] for s in scen for i in range(len(ci.vectors_b[s]))]
    rhs = [ci.vectors_b[s, i] for s in scen for i in range(len(ci.vectors_b[s]))]
    return common.lp_max(ci.vector_c, rows, rhs, True, ci.nb_vars)[0]


def model(H):
    rng = H.rng
    A_ = repo('src.optim.AccObjModel').AccObjModel
    CR = repo('src.refiner.CostRefiner').CostRefiner
    for it in range(H.scale(70, 1500)):
        if not H.more(0.55):
            break
        S = rng.randint(2, 7)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(1, 4), cont=rng.random() < 0.6)
        import numpy as np
        if rng.random() < 0.6:
            ci.vectors_b = ci.vectors_b + np.array([[rng.randint(0, 30) / 10] for _ in range(S)])
        scen = rng.sample(range(S), rng.randint(2, min(S, 5)))
        inf = rng.sample(scen, rng.randint(2, len(scen)))
        if rng.random() < 0.3:
            inf = inf + [s for s in range(S) if s not in scen][:1]
        inp = dict(common.describe(ci), scenarios=scen, violated=inf)
        cost = {}
        best = None
        for z in itertools.product([0, 1], repeat=len(scen)):
            L = [s for s, b in zip(scen, z) if b]
            R = [s for s, b in zip(scen, z) if not b]
            if not any(s in inf for s in L) or not any(s in inf for s in R):
                continue
            v = max(side(ci, L), side(ci, R))
            cost[z] = v
            best = v if best is None else min(best, v)
        H.case(str(inp), dict(scenarios=scen, violated=inf, best=best))
        if rng.random() < 0.5:
            v, L, R = H.call('accurate_obj_split', inp, lambda: CR(ci, use_acc_obj=True).accurate_obj_split(list(scen), list(inf)))
        else:
            mdl = H.call('AccObjModel', inp, A_, ci, list(scen), list(inf))
            H.call('build', inp, mdl.build)
            H.call('solve', inp, mdl.solve)
            v = H.call('get_obj_val', inp, mdl.get_obj_val)
            L, R = H.call('get_subsets', inp, mdl.get_subsets)
        H.check(common.close(v, best, 5e-4), 'optimal value of the split model', inp, v, best)
        H.check(sorted(L + R) == sorted(scen), 'every scenario on exactly one side', inp, (L, R))
        H.check(any(s in inf for s in L) and any(s in inf for s in R), 'a violated scenario on each side', inp, (L, R))
        got = max(side(ci, L), side(ci, R))
        H.check(common.close(got, v, 5e-4), 'the lists read are the assignment of the optimum', inp, dict(split=(L, R), cost=got, value=v))
        # every single assignment has the larger of the two dual bounds as its value
        if it % 2 == 0:
            mdl = H.call('AccObjModel', inp, A_, ci, list(scen), list(inf))
            H.call('build', inp, mdl.build)
            g = mdl.grb_model
            g.Params.OutputFlag = 0
            g.Params.MIPGap = 0
            lv = [mdl.left_var_pi[k] for k in range(len(scen))]
            for z in itertools.product([0, 1], repeat=len(scen)):
                for k, b in enumerate(z):
                    lv[k].LB = lv[k].UB = b
                g.optimize()
                sol = g.Status == 2
                H.check(sol == (z in cost), 'allowed assignments', dict(inp, left=z), g.Status, z in cost)
                if sol:
                    H.check(common.close(g.ObjVal, cost[z], 1e-4), 'value of an assignment', dict(inp, left=z), g.ObjVal, cost[z])


def stub(scen, inf, salt):
    """deterministic split of a set: cost and sides depend on both sets only"""
    key = (salt, tuple(sorted(scen)), tuple(sorted(inf)))
    r = random.Random(str(key))
    scen, inf = sorted(scen), sorted(inf)
    a, b = r.sample(inf, 2)
    L, R = [a], [b]
    for s in scen:
        if s not in (a, b):
            (L if r.random() < 0.5 else R).append(s)
    return r.uniform(0, 100) - (5e6 if salt % 8 == 7 else 0), L, R


def refiner(H):
    rng = H.rng
    CR = repo('src.refiner.CostRefiner').CostRefiner
    M_ = repo('src.Merger').Merger

    class CI:
        pass
    for it in range(H.scale(500, 10000)):
        if not H.more(0.95):
            break
        S = rng.randint(3, 16)
        ci = CI()
        F = rng.randint(1, max(1, S // 2))
        ci.epsilon = F / S
        ci.get_epsilon = lambda: ci.epsilon
        ci.get_nb_scenarios = lambda: S
        rf = CR(ci, use_acc_obj=True)
        salt = it
        calls = []

        def split(scen, inf):
            calls.append((frozenset(scen), frozenset(inf)))
            return stub(scen, inf, salt)
        rf.accurate_obj_split = split
        inf = None
        for rep in range(4):
            part = common.rand_partition(rng, S, rng.randint(1, F)) if rep == 0 or rng.random() < 0.4 else part
            if rep == 0 or rng.random() < 0.6:
                inf = sorted(rng.sample(range(S), min(S, F + rng.randint(1, max(1, S - F)))))
            K = len(part)
            touched = [c for c in range(K) if any(s in inf for s in part[c])]
            if len(inf) <= F or not 0 < len(touched) <= F:
                break
            ci.infeasible_scenarios = list(inf)
            ci.is_scenario_infeasible = [s in inf for s in range(S)]
            ci.max_infeasibility_scenarios = [0.0] * S
            rf.subset_costs = [rng.random() * 100 for _ in part]
            rf.vUB = rng.choice([0.0, 30.0, 60.0, 90.0, 200.0]) - (5e6 if salt % 8 == 7 else 0)
            inp = dict(partition=part, violated=inf, tolerated=F, vUB=rf.vUB, call=rep, salt=salt)
            H.case(str(inp), inp)
            before = [list(s) for s in part]
            n, new = H.call('refine', inp, rf.refine, part, None)
            # expected: repeatedly split the subset with the largest cost not above vUB, else the smallest cost
            cur = [set(s) for s in before]
            I_ = set(inf)
            for _ in range(F + 1 - len(touched)):
                cand = {c: stub(cur[c], cur[c] & I_, salt) for c in range(len(cur)) if len(cur[c] & I_) >= 2}
                ok = {c: v for c, v in cand.items() if v[0] <= rf.vUB}
                c = max(ok, key=lambda q: ok[q][0]) if ok else min(cand, key=lambda q: cand[q][0])
                cur[c] = set(cand[c][1])
                cur.append(set(cand[c][2]))
            H.check([set(s) for s in new] == cur, 'subsets chosen and split as computed for them', inp, new, cur)
            H.check(len(set(calls)) == len(calls), 'a split is computed once per pair of scenario and violated sets', inp, calls)
            part = [list(s) for s in new] if rng.random() < 0.6 else part
            if rng.random() < 0.3 and len(part) > 2:
                # subsets are merged between refinements: stored splits must not change with them
                mg = M_.__new__(M_)
                new, _ = H.call('merge_all', inp, mg.merge_all, new, rng.sample(range(len(new)), 2))
                part = [list(s) for s in new]


PARTS = [model, refiner]
