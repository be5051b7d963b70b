"""C04: initial partitions"""
import random
import common
from common import repo

RULE = ("both initialisation methods for every number of subsets on instances with 1 to 12 scenarios (ties in the costs "
        "included), random numbers of scenarios up to 60 with given costs, refusal of more subsets than scenarios")


def check(H, parts, S, n, inp):
    H.check(len(parts) == n, 'number of subsets', inp, parts, n)
    H.check(all(len(p) > 0 for p in parts), 'no subset is empty', inp, parts)
    H.check(sorted(int(s) for p in parts for s in p) == list(range(S)), 'every scenario exactly once', inp, parts)
    sz = [len(p) for p in parts]
    H.check(max(sz) - min(sz) <= 1, 'sizes differ by at most one', inp, parts)


def cost_order(H, parts, costs, S, n, inp):
    """reading rank r from subset r mod n at place r div n gives decreasing costs"""
    seq = [costs[parts[r % n][r // n]] if r // n < len(parts[r % n]) else None for r in range(S)]
    H.check(None not in seq and all(a >= b for a, b in zip(seq, seq[1:])), 'scenarios dealt in decreasing order of cost', inp,
            dict(partition=parts, costs=costs))


def real(H):
    rng = H.rng
    I_ = repo('src.Initializer').Initializer
    E = repo('src.Evaluator').Evaluator
    for it in range(H.scale(40, 500)):
        if not H.more(0.5):
            break
        S = 1 + it % 12
        ci = common.rand_instance(rng, S=S, n=rng.randint(1, 4), m=rng.randint(1, 2), style=rng.choice(['plain', 'ties', 'zero', 'sparse']))
        want = [float(v) for v in H.call('costs', common.describe(ci), E(ci).get_all_single_scenario_costs)]
        for n in range(1, S + 1):
            ini = H.call('Initializer', {}, I_, ci, None)
            for kind in ('random', 'cost'):
                inp = dict(common.describe(ci), n=n, kind=kind)
                random.seed(it)
                H.case((str(inp)), dict(S=S, n=n, kind=kind))
                parts = H.call('create_first_partition', inp, ini.create_first_partition, n, kind)
                check(H, parts, S, n, inp)
                if kind == 'cost':
                    costs = [float(v) for v in ini.scenario_costs]
                    H.check(len(costs) == S and all(common.close(a, b, 1e-7) for a, b in zip(costs, want)),
                            'list of costs in scenario order', inp, costs, want)
                    cost_order(H, parts, costs, S, n, inp)
        for n in (S + 1, S + rng.randint(2, 9)):
            for kind in ('random', 'cost'):
                inp = dict(S=S, n=n, kind=kind)
                try:
                    with common.quiet():
                        r = ini.create_first_partition(n, kind)
                except Exception:
                    continue
                H.fail('more subsets than scenarios are refused', inp, r)


def given(H):
    """the same with an evaluator that returns given costs"""
    rng = H.rng
    I_ = repo('src.Initializer').Initializer

    class CI:
        def __init__(self, S):
            self.S = S

        def get_nb_scenarios(self):
            return self.S
    for it in range(H.scale(1500, 30000)):
        if not H.more(0.9):
            break
        S = rng.randint(1, 60)
        n = rng.choice([1, S, rng.randint(1, S), max(1, S // 2), max(1, S - 1)])
        costs = [rng.choice([float(rng.randint(-3, 3)), rng.uniform(-100, 100), 1e6 * rng.random()]) for _ in range(S)]
        ini = I_(CI(S), None)
        ini.evaluator.get_all_single_scenario_costs = lambda: list(costs)
        ini.evaluator.scenario_costs = lambda sc: [costs[s] for s in sc]
        for kind in ('cost', 'random'):
            inp = dict(S=S, n=n, kind=kind, costs=costs)
            random.seed(it)
            H.case((S, n, kind, it), inp)
            parts = H.call('create_first_partition', inp, ini.create_first_partition, n, kind)
            check(H, parts, S, n, inp)
            if kind == 'cost':
                H.check([float(v) for v in ini.scenario_costs] == costs, 'list of costs in scenario order', inp, ini.scenario_costs, costs)
                cost_order(H, parts, costs, S, n, inp)


def method(H):
    """the adaptive method starts from such a partition and has it loaded"""
    rng = H.rng
    AP = repo('src.solver.AdaptivePartitioner').AdaptivePartitioner
    for it in range(H.scale(40, 400)):
        S = rng.randint(1, 25)
        eps = common.rand_eps(rng, S)
        ci = common.rand_instance(rng, S=S, n=2, m=1, eps=eps)
        kind = rng.choice(['random', 'cost'])
        inp = dict(S=S, epsilon=eps, kind=kind)
        m = H.call('AdaptivePartitioner', inp, lambda: AP(ci, initial_partition_type=kind))
        n = common.tol_count(eps, S) + 1
        H.case((S, eps, kind), inp)
        check(H, m.partition, S, n, inp)
        H.check(m.chance_instance_part.get_nb_scenarios() == n, 'partition loaded', inp)


PARTS = [real, given, method]
