"""C09: DeterModel after any sequence of build / add / remove, Evaluator"""
import math
import common
import grbview
from common import repo

RULE = ("random sequences of build, add and remove (single scenarios, lists, re-adding) on small instances of both variable "
        "types; the model is read back and its acceptance compared with the definition on grid points, vertices and points "
        "on constraint boundaries; costs and solutions of scenarios, subsets and partitions against an independent model")


def points(rng, ci, rows, k):
    n, cont = ci.nb_vars, bool(ci.continuous_var)
    out = []
    for _ in range(k):
        if cont:
            x = [rng.choice([0.0, 1.0, rng.randint(0, 10) / 10, rng.random()]) for _ in range(n)]
        else:
            x = [float(rng.random() < 0.5) for _ in range(n)]
        r = rng.random()
        if cont and r < 0.35 and rows:
            # a point on the boundary of a constraint
            a, b = rng.choice(rows)
            l = sum(float(p) * q for p, q in zip(a, x))
            if l > 1e-9:
                f = float(b) / l * rng.choice([1.0, 1.0, 1.001, 0.999])
                if max(x) * f <= 1:
                    x = [q * f for q in x]
        elif r < 0.45:
            j = rng.randrange(n)
            x[j] = rng.choice([-0.25, 1.25]) if cont else rng.choice([2.0, -1.0, 0.5])
        out.append(x)
    return out


def truth(ci, scen, x):
    """None when too close to a boundary to call"""
    cont = bool(ci.continuous_var)
    for a in x:
        if a < 0 or a > 1 or (not cont and a not in (0.0, 1.0)):
            return False
    near = False
    for s in scen:
        for i in range(len(ci.vectors_b[s])):
            v = sum(float(p) * q for p, q in zip(ci.matrices_A[s, i], x)) - float(ci.vectors_b[s, i])
            if v > 1e-4:
                return False
            if v > 1e-9:
                near = True
    return None if near else True


def accept(H, dm, ci, scen, inp, k):
    n = ci.nb_vars
    V = grbview.View(dm.grb_model, [grbview.listvars(dm.var_x, n)])
    rows = [(ci.matrices_A[s, i], ci.vectors_b[s, i]) for s in range(ci.nb_scenarios) for i in range(len(ci.vectors_b[s]))]
    H.check(V.sense == -1, 'the model maximises', inp, V.sense)
    for x in points(H.rng, ci, rows, k):
        t = truth(ci, scen, x)
        if t is None:
            continue
        got = V.accepts(x)
        H.check(got == t, 'accepted points', dict(inp, x=x, included=sorted(scen)), got, t)
        w = sum(float(c) * a for c, a in zip(ci.vector_c, x))
        H.check(abs(V.objective(0, x) - w) < 1e-6, 'objective of the model', dict(inp, x=x), V.objective(0, x), w)


def optimum(H, ci, scen, v, x, inp):
    best = common.scen_max(ci, sorted(scen))
    H.check(best is not None, 'oracle solves', inp)
    H.check(common.close(float(v), best[0], 2e-4), 'cost is the optimal value', dict(inp, scenarios=sorted(scen)), v, best[0])
    x = [float(a) for a in x]
    ok = all(-1e-6 <= a <= 1 + 1e-6 for a in x) and len(x) == ci.nb_vars
    if not ci.continuous_var:
        ok = ok and all(abs(a - round(a)) < 1e-5 for a in x)
    for s in scen:
        ok = ok and not common.violated(ci.matrices_A, ci.vectors_b, x, s, 1e-4)
    val = sum(float(c) * a for c, a in zip(ci.vector_c, x))
    H.check(ok and common.close(val, float(v), 1e-4), 'solution attains the cost', dict(inp, scenarios=sorted(scen)), dict(x=x, cost=v))


def sequences(H):
    rng = H.rng
    D = repo('src.optim.DeterModel').DeterModel
    for it in range(H.scale(150, 4000)):
        if not H.more(0.5):
            break
        S = rng.randint(1, 7)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(1, 5))
        if rng.random() < 0.5:
            import numpy as np
            ci.vectors_b = ci.vectors_b + np.array([[rng.randint(0, 40) / 10] for _ in range(S)])
        ops = []
        inp = dict(common.describe(ci), operations=ops)
        dm = H.call('DeterModel', inp, D, ci)
        start = rng.sample(range(S), rng.randint(0, S))
        inc = set(start)
        if len(start) == 1 and rng.random() < 0.5:
            ops.append(('build', start[0]))
            H.call('build', inp, dm.build, start[0])
        else:
            ops.append(('build', list(start)))
            H.call('build', inp, dm.build, list(start))
        accept(H, dm, ci, inc, inp, 12)
        for _ in range(rng.randint(1, 6)):
            if rng.random() < 0.5 and len(inc) < S:
                pick = rng.sample(sorted(set(range(S)) - inc), rng.randint(1, S - len(inc)))
                op = 'add'
                inc |= set(pick)
            elif inc:
                pick = rng.sample(sorted(inc), rng.randint(1, len(inc)))
                op = 'remove'
                inc -= set(pick)
            else:
                continue
            arg = pick[0] if len(pick) == 1 and rng.random() < 0.5 else list(pick)
            ops.append((op, arg))
            H.call(op, inp, getattr(dm, op), arg)
            H.case(str(inp), dict(operations=list(ops)))
            accept(H, dm, ci, inc, inp, 8)
            if rng.random() < 0.4:
                H.call('solve', inp, dm.solve)
                optimum(H, ci, inc, dm.get_obj_val(), dm.get_var_x_val(), inp)
        H.call('solve', inp, dm.solve)
        optimum(H, ci, inc, dm.get_obj_val(), dm.get_var_x_val(), inp)


def costs(H):
    rng = H.rng
    E = repo('src.Evaluator').Evaluator
    for it in range(H.scale(150, 4000)):
        if not H.more(0.9):
            break
        S = rng.randint(1, 8)
        ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(1, 5))
        ev = E(ci)
        inp = common.describe(ci)
        H.case(str(inp), dict(S=S))
        sc = H.call('get_all_single_scenario_costs', inp, ev.get_all_single_scenario_costs)
        w = [common.scen_max(ci, [s])[0] for s in range(S)]
        H.check(len(sc) == S and all(common.close(float(a), b, 2e-4) for a, b in zip(sc, w)), 'scenario costs in scenario order', inp, sc, w)
        lst = [rng.randrange(S) for _ in range(rng.randint(1, S))]
        sc = H.call('scenario_costs', dict(inp, scenarios=lst), ev.scenario_costs, lst)
        H.check(len(sc) == len(lst) and all(common.close(float(a), w[s], 2e-4) for a, s in zip(sc, lst)), 'scenario costs in the order asked for',
                dict(inp, scenarios=lst), sc, [w[s] for s in lst])
        part = common.rand_partition(rng, S)
        cs, xs = H.call('partition_cost', dict(inp, partition=part), ev.partition_cost, [list(p) for p in part])
        H.check(len(cs) == len(part) == len(xs), 'one cost and solution per subset', dict(inp, partition=part), cs)
        for p, v, x in zip(part, cs, xs):
            optimum(H, ci, p, v, x, dict(inp, partition=part))
        sub = rng.choice(part)
        v, x = H.call('subset_cost', dict(inp, subset=sub), ev.subset_cost, list(sub))
        optimum(H, ci, sub, v, x, dict(inp, subset=sub))


PARTS = [sequences, costs]
