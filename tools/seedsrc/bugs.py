BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


KI = 'src/instance/ChanceKnapInstance.py'
PI = 'src/instance/PartitionChanceKnapInstance.py'
AP = 'src/solver/AdaptivePartitioner.py'

bug('C01-epsilon-digits', 'C01', [(KI, '        self.epsilon = epsilon\n', '        self.epsilon = round(epsilon, 2)\n')], '''
from inst import *
i = load([[[1., 2.]]], [3.], [0.27, 4.0], eps=0.125)
assert i.get_epsilon() == 0.125, i.get_epsilon()
''', 'an epsilon with more than two decimals', 'the instance uses another epsilon than the one asked for')

bug('C01-trunc-objective', 'C01', [(KI, 'self.vector_c = np.round(self.vector_c, decimals=1)', 'self.vector_c = np.trunc(self.vector_c*10)/10')], '''
from inst import *
i = load([[[1., 2.]]], [3.], [0.27, 4.0])
assert abs(i.get_vector_c()[0] - 0.3) < 1e-9, i.get_vector_c()
''', 'objective entries with more than one decimal', 'entries are truncated instead of rounded')

bug('C02-rescale-first', 'C02', [(KI, """                TOLERANCE = 1e-6
                # Only add violation if larger than tolerance
                if violation > TOLERANCE:
                    rescaling = np.linalg.norm(self.matrices_A[s, i, :])
                    if rescaling != 0:
                        violation = violation/rescaling
                    scenario_infeasibility[s].append(violation)
""", """                TOLERANCE = 1e-6
                rescaling = np.linalg.norm(self.matrices_A[s, i, :])
                if rescaling != 0:
                    violation = violation/rescaling
                # Only add violation if larger than tolerance
                if violation > TOLERANCE:
                    scenario_infeasibility[s].append(violation)
""")], '''
from inst import *
i = load([[[1000., 1.]], [[1., 1.]]], [10.], [1., 1.], 0.2)
x = np.array([0.01 + 1e-8, 0.])
assert i.is_feasible(x)[3] == [True, False], i.is_feasible(x)
''', 'a violation between 1e-6 and 1e-6 times the norm of the row', 'violated scenarios are those exceeded by more than 1e-6')

bug('C02-stale-max', 'C02', [(KI, '        self.max_infeasibility_scenarios = np.zeros(self.nb_scenarios)\n', "        if not hasattr(self, 'max_infeasibility_scenarios'):\n            self.max_infeasibility_scenarios = np.zeros(self.nb_scenarios)\n")], '''
from inst import *
i = load([[[1., 1.]], [[2., 1.]]], [1.], [1., 1.], 0.2)
with quiet():
    i.check_feasibility(np.array([1., 1.]))
    i.check_feasibility(np.array([0., 0.]))
assert list(i.get_feasible_scenarios()) == [True, True], i.get_feasible_scenarios()
''', 'two feasibility checks where the second point satisfies a scenario the first one violates', 'the mask describes an older point')

bug('C03-epsilon-count', 'C03', [(PI, 'self.epsilon_part = self.epsilon/total_proba', 'self.epsilon_part = self.epsilon*self.nb_scenarios/nb_subsets')], '''
from inst import *
from src.instance.PartitionChanceKnapInstance import PartitionChanceKnapInstance
i = rand(4, 1, 2)
i.proba = np.array([.1, .2, .3, .4])
p = PartitionChanceKnapInstance(i)
p.load_partition(2, [[0, 3], [1, 2]])
assert abs(p.get_epsilon() - 0.2/0.3) < 1e-9, p.get_epsilon()
''', 'scenarios with unequal probabilities', 'epsilon is divided by the sum of the smallest probabilities')

bug('C03-sorted-rhs', 'C03', [(PI, '''        return self.vectors_b[self.partition[subset],
''', '''        return self.vectors_b[sorted(self.partition[subset]),
''')], '''
from inst import *
from src.instance.PartitionChanceKnapInstance import PartitionChanceKnapInstance
i = rand(3, 1, 2)
i.vectors_b = np.array([[1.], [2.], [3.]])
p = PartitionChanceKnapInstance(i)
p.load_partition(2, [[2, 0], [1]])
assert list(p.get_vector_b(0)) == [3., 1.], p.get_vector_b(0)
''', 'right-hand sides that differ between scenarios and a subset listed out of order', 'rows of the matrix and of the right-hand side no longer correspond')

bug('C04-random-blocks', 'C04', [('src/Initializer.py', 'return [scenarios[i::n] for i in range(n)]', '''size = len(scenarios)//n
        return ([scenarios[i*size:(i+1)*size] for i in range(n-1)]
                + [scenarios[(n-1)*size:]])''')], '''
from inst import *
from src.Initializer import Initializer
i = rand(11, 1, 2)
with quiet():
    p = Initializer(i, None).create_first_partition(4, 'random')
l = sorted(len(c) for c in p)
assert l[-1] - l[0] <= 1, l
''', 'a number of scenarios with remainder at least two', 'subset sizes differ by more than one')

bug('C04-int-costs', 'C04', [('src/Initializer.py', 'sorted_indices = np.argsort(-scenario_costs)', 'sorted_indices = np.argsort(-scenario_costs.astype(int), kind="stable")')], '''
from inst import *
from src.Initializer import Initializer
i = load([[[1., 1.]], [[1., 1.]]], [1.], [0.5, 0.3])
t = Initializer(i, None)
t.evaluator.get_all_single_scenario_costs = lambda: [10.2, 10.7]
with quiet():
    p = t.create_first_partition(2, 'cost')
assert p == [[1], [0]], p
''', 'scenario costs that differ by less than one', 'scenarios are dealt in decreasing order of cost')

bug('C05-in-place', 'C05', [('src/refiner/Refiner.py', '''        self.old_partition = partition
        self.partition = deepcopy(partition)''', '''        self.old_partition = deepcopy(partition)
        self.partition = partition''')], '''
from inst import *
from src.refiner.RandomRefiner import RandomRefiner
i = rand(6, 1, 3, eps=0.2)
i.A = None
with quiet():
    i.check_feasibility(np.ones(3))
    p = [[0, 1, 2, 3, 4, 5]]
    n, q = RandomRefiner(i).refine(p, np.ones(3))
assert p == [[0, 1, 2, 3, 4, 5]], p
''', 'a caller that keeps the old partition', 'the partition passed in is modified')

bug('C06-stale-lists', 'C06', [('src/refiner/Refiner.py', '''            self._find_infeasible_subsets(self.partition))
        return''', '''            self._find_infeasible_subsets(self.old_partition))
        return''')], '''
from inst import *
from src.refiner.RandomRefiner import RandomRefiner
i = rand(6, 1, 3, eps=0.2)
with quiet():
    i.check_feasibility(np.ones(3))
    r = RandomRefiner(i)
    n, q = r.refine([[0, 1, 2, 3, 4, 5]], np.ones(3))
bad = [c for c in range(n) if any(i.is_scenario_infeasible[s] for s in q[c])]
assert r.infeasible_subsets == bad, (r.infeasible_subsets, bad)
''', 'any refinement, looking at the list of infeasible subsets afterwards', 'the lists reported describe the old partition')

bug('C07-delete-order', 'C07', [('src/Merger.py', '        sorted_subsets = np.sort(self.deleted_subsets)[::-1]', '        sorted_subsets = self.deleted_subsets[::-1]')], '''
from inst import *
from src.Merger import Merger
with quiet():
    p, n = Merger(None, None).merge_all([[0], [1], [2], [3]], [0, 3, 1])
assert n == 2 and sorted(p[0]) == [0, 1, 3] and p[1] == [2], p
''', 'candidates that are not listed in increasing order', 'wrong subsets are deleted')

bug('C07-margin-scale', 'C07', [('src/Merger.py', '''            if rescaling != 0:
                temp_margin''', '''            if rescaling > 1:
                temp_margin''')], '''
from inst import *
from src.Merger import Merger
from src.instance.PartitionChanceKnapInstance import PartitionChanceKnapInstance
i = load([[[0.1, 0.]], [[2., 0.]], [[3., 0.]]], [2.], [1., 1.])
p = PartitionChanceKnapInstance(i)
p.load_partition(3, [[0], [1], [2]])
with quiet():
    m = Merger(i, p)
    q, n = m.merge_feasible([[0], [1], [2]], np.array([0., 0.]), [0, 1, 2], 0)
assert abs(m._single_subset_margin(0, np.array([0., 0.])) - 20) < 1e-9
''', 'a constraint row of norm between zero and one', 'margins are the smallest normalised slacks')

bug('C08-merge-tolerance', 'C08', [(AP, 'if max(new_subset_costs) <= self.vUB:', 'if max(new_subset_costs) <= self.vUB + 1e-1:')], '''
from inst import *
from src.solver.AdaptivePartitioner import AdaptivePartitioner
i = rand(8, 2, 3, eps=0.25)
with quiet():
    a = AdaptivePartitioner(i)
    a.subset_costs, a.subset_sols = a.evaluator.partition_cost(a.partition)
    a.vUB = 50.
    a.refiner.mu = 1
    a.refiner.feasible_subsets = [0, 1]
    n = a.nb_subsets
    try:
        a._merge(np.zeros(3), [10., 50.05], True)
    except Exception:
        pass
assert a.did_merge is False, a.partition
''', 'a new subset whose cost is slightly above the upper bound', 'merging only when every new subset costs at most the upper bound')

bug('C09-remove-zero', 'C09', [('src/optim/DeterModel.py', """        if scenarios.__class__ == list:
            for s in scenarios:
                self._remove_feasibility_constraints(s)
""", """        if not scenarios:
            return
        if scenarios.__class__ == list:
            for s in scenarios:
                self._remove_feasibility_constraints(s)
""")], '''
from inst import *
from src.optim.DeterModel import DeterModel
i = load([[[4., 4.]], [[1., 1.]]], [2.], [1., 1.])
m = DeterModel(i)
m.build([0, 1])
m.remove(0)
m.solve()
assert abs(m.get_obj_val() - 2.) < 1e-6, m.get_obj_val()
''', 'removing the single scenario 0 by its number', 'the model keeps a scenario that was removed')

bug('C10-zero-big-m', 'C10', [('src/optim/OptiModel.py', 'if bigM[i] >= -1e-6:', 'if bigM[i] > 0:')], '''
from inst import *
from src.optim.CCLPModel import CCLPModel
i = load([[[1., 1.]], [[4., 4.]]], [2.], [1., 1.], 0.2)


class F:
    def get_vector_big_M(self, s):
        return np.array([0.])


m = CCLPModel(i, F())
with quiet():
    m.build(use_big_M=True, verbose=False)
m.solve()
assert abs(m.get_obj_val() - 0.5) < 1e-6, m.get_obj_val()
''', 'continuous variables and a big-M that is exactly zero', 'a constraint of a selected scenario is not enforced')

bug('C10-count-chance', 'C10', [('src/optim/OptiModel.py', '''            gp.quicksum(self.var_z[s]*proba[s]
                        for s in range(self.nb_scenarios)) >= 1-epsilon)''', '''            gp.quicksum(self.var_z[s]*proba[0]
                        for s in range(self.nb_scenarios)) >= 1-epsilon)''')], '''
from inst import *
from src.optim.CCLPModel import CCLPModel
i = load([[[1., 1.]], [[4., 4.]], [[2., 2.]]], [2.], [1., 1.], 0.2)
i.proba = np.array([.1, .3, .6])
m = CCLPModel(i, None)
with quiet():
    m.build(verbose=False)
m.solve()
assert m.grb_model.Status == 2, m.grb_model.Status
''', 'scenarios or subsets of unequal probability', 'selected scenarios have total probability at least 1-epsilon')

bug('C11-strict-bound', 'C11', [('src/optim/BigMKnapsackModel.py', 'lhs <= self.vUB)', 'lhs <= self.vUB - 1e-4)')], '''
from inst import *
from src.BigMFinder import BigMFinder
i = load([[[1., 3.]]], [2.], [1., 1.], 0.2, cont=False)
f = BigMFinder(i)
with quiet():
    f.run_belotti_et_al_big_M(1.)
assert f.bigM[0][0] >= 1 - 1e-6, f.bigM
''', 'binary points whose objective equals the upper bound', 'the big-M is below the violation of such a point')

bug('C12-partition-epsilon', 'C12', [('src/BigMFinder.py', '''        epsilon = self.chance_instance.get_epsilon()
        q =''', '''        epsilon = self.chance_instance.epsilon
        q =''')], '''
from inst import *
from src.BigMFinder import BigMFinder
from src.instance.PartitionChanceKnapInstance import PartitionChanceKnapInstance
i = rand(20, 1, 2, eps=0.4)
p = PartitionChanceKnapInstance(i)
part = [[2*k, 2*k+1] for k in range(10)]
p.load_partition(10, part)
f = BigMFinder(p)
f.nb_scenarios = 10
v = np.arange(10.)
# eight subsets may be violated, so the ninth smallest value is the least valid one
assert f._quantile_big_m(v) >= 8., f._quantile_big_m(v)
''', 'a partitioned instance with fewer subsets than scenarios', 'big-M of a subset cuts off points that violate as many subsets as allowed')

bug('C13-int-order', 'C13', [('src/UpperBounder.py', 'sorted_scenarios = np.argsort(scenario_costs)', 'sorted_scenarios = np.argsort(np.round(scenario_costs), kind="stable")')], '''
from inst import *
from src.UpperBounder import UpperBounder
with quiet():
    v = UpperBounder(None, None, None).ahmed_et_al_bound([10.4, 10.1, 20.], np.full(3, 1/3), 0.4)
assert v == 10.4, v
''', 'scenario costs that differ by less than one', 'the bound is the quantile of the costs')

bug('C14-loose-total', 'C14', [('src/LowerBounder.py', '        TOL = 1e-7\n', '        TOL = 1e-3\n')], '''
from inst import *
from src.LowerBounder import LowerBounder
i = load(np.ones((2000, 1, 1)), [1.], [1.], 0.2)
s = LowerBounder(i)._get_selected_scenarios(np.zeros(2000))
assert len(s) == 1600, len(s)
''', 'more than a thousand scenarios', 'selected scenarios have total probability at least 1-epsilon')

bug('C14-first-only', 'C14', [('src/LowerBounder.py', '''                    return True, x, obj
''', '''                    return True, x, obj
                break
''')], '''
from inst import *
from src.LowerBounder import LowerBounder
i = load([[[1., 1.]], [[2., 2.]]], [2.], [1., 1.], 0.2)
ok, x, o = LowerBounder(i).incumbent_bound([np.array([1., 1.]), np.array([.5, .4])], 10., -1., verbose=False)
assert ok and abs(o - .9) < 1e-9, (ok, o)
''', 'several improving candidates of which the best is infeasible', 'the best acceptable candidate is not found')

bug('C15-prune-rounded', 'C15', [('src/UpperBounder.py', 'np.array(subset_costs) <=', 'np.array(subset_costs).round(2) <=')], '''
from inst import *
from src.UpperBounder import UpperBounder


class A:
    did_merge = True
    MERGE_TOL = 1.0
    vUB = 100.

    def solve_cclp_model(self, *a, **k):
        self.pruned = list(k['prune_indices'])
        return np.zeros(2), [1., 0.], 5., 5.


i = rand(4, 1, 2)
a = A()
u = UpperBounder(i, 'random', 'random')
u.partition_bound(a, [1., 5.5049, 9.], 5.5045, [1., 0., 0.], [], None, 10., False, False)
assert a.pruned == [0], a.pruned
''', 'a subset whose cost is slightly above the lower bound', 'only subsets of cost at most the lower bound minus 1e-3 are pruned')

bug('C16-objective-bound', 'C16', [(AP, '            self.vUB = v_bnd\n', '            self.vUB = v_obj\n')], '''
from inst import *
from src.solver.AdaptivePartitioner import AdaptivePartitioner
i = rand(8, 2, 3, eps=0.25)
with quiet():
    a = AdaptivePartitioner(i)
    a.iteration = 1
    a.subset_costs, a.subset_sols = a.evaluator.partition_cost(a.partition)
    a.nb_subsets += 1
    a.vUB = 100.
    a.vLB = 0.
    a.upperbounder.partition_bound = lambda *k, **q: (np.zeros(3), [0.], 60., 90.)
    a._upper_bound(None, False)
assert a.vUB == 90., a.vUB
''', 'a partitioned problem that the solver leaves with a gap', 'the upper bound drops below the optimum')

bug('C17-shift-all', 'C17', [('src/Warmstarter.py', '''        count = 0
        for i, z in enumerate(zUB):
            if i not in deleted_subsets:
                if (z == 1):
                    z_start[count] = 1
                # Note that we skip the deleted subsets when incrementing
                # the counter.
                count += 1
''', '''        deleted = sorted(deleted_subsets)
        for i, z in enumerate(zUB):
            if i not in deleted:
                if (z == 1):
                    # All subsets behind the first deletion move up
                    shift = 0
                    if deleted and i > deleted[0]:
                        shift = len(deleted)
                    z_start[i - shift] = 1
''')], '''
from inst import *
from src.Warmstarter import Warmstarter
z = Warmstarter().get_z_start([1, 1, 1, 1, 1], [1, 3])
assert z == {0: 1, 1: 1, 2: 1}, z
''', 'two deleted subsets with a selected one in between', 'start values at wrong positions')

bug('C17-tail-only', 'C17', [('src/UpperBounder.py', 'z_start = self.warmstarter.get_z_start(zUB, deleted_subsets)', 'z_start = self.warmstarter.get_z_start(zUB, deleted_subsets[:len(zUB)//2])')], '''
from inst import *
from src.UpperBounder import UpperBounder


class A:
    did_merge = True
    MERGE_TOL = 1.0
    vUB = 100.

    def solve_cclp_model(self, *a, **k):
        self.start = dict(k['z_start'])
        return np.zeros(2), [1., 0.], 5., 5.


i = rand(4, 1, 2)
a = A()
UpperBounder(i, 'random', 'random').partition_bound(a, [1., 5., 9.], 0., [1., 1., 1., 1., 1.], [2, 3, 4], None, 10., False, False)
assert a.start == {0: 1, 1: 1}, a.start
''', 'a merge that deletes more than half of the subsets', 'start values for subsets that no longer exist')

bug('C18-columns', 'C18', [(AP, '''        computation_details = ([self.iteration, size_partition] +''', '''        computation_details = ([size_partition, self.iteration] +''')], '''
from inst import *
from src.TimeManager import TimeManager
from src.solver.AdaptivePartitioner import AdaptivePartitioner
import csv
i = rand(8, 2, 3, eps=0.25)
with quiet():
    a = AdaptivePartitioner(i)
    a.use_big_M = False
    a.iteration = 7
    a.vLB, a.vUB = 1., 2.
    TimeManager.set_final_time()
    p = os.path.join(D, 'row.csv')
    a.write_all_computation_details(p)
row = next(csv.reader(open(p)))
assert row[-6] == '7', row
''', 'reading the result row of an adaptive run', 'the iteration column holds the number of subsets')

bug('C18-time-column', 'C18', [('src/export/format_results.py', 'solving_time = row[-4]', 'solving_time = row[-4] if m in milp_methods else row[9]')], '''
from inst import *
from src.export.format_results import format_method
row = ['x', 2., 1., 4., 1., .2, 1800., .01, 1., 2., 3., 5., 6., 8., 12.5, 1., 1., 0.]
t = format_method([row], 4, [1], 1e-2, [1, 2], [3, 4])
assert t[0] == 12.5, t
''', 'a solved run of an adaptive method', 'mean time is read from the wrong column')

bug('C19-memory-key', 'C19', [('src/refiner/CostRefiner.py', 'key = (frozenset(scenarios), frozenset(infeasible_scenarios))', 'key = (frozenset(scenarios), len(infeasible_scenarios))')], '''
from inst import *
from src.refiner.CostRefiner import CostRefiner
i = rand(4, 1, 2)
r = CostRefiner(i, use_acc_obj=True)
r.post_split_costs, r.left_subsets, r.right_subsets, r.count = {}, {}, {}, 0
r.partition = [[0, 1, 2, 3]]
calls = []
r.accurate_obj_split = lambda s, f: (calls.append(list(f)), (1., f[:1], f[1:]))[1]
r.infeasible_scenarios = [0, 1]
r._evaluate_single_accurate_split(0)
r.infeasible_scenarios = [2, 3]
r._evaluate_single_accurate_split(0)
assert len(calls) == 2, calls
''', 'the same subset with another set of violated scenarios of the same size', 'a split computed for other violated scenarios is reused')

bug('C19-unassigned', 'C19', [('src/optim/AccObjModel.py', '''                self.grb_model.addConstr(
                    (self.right_var_pi[s] == 0)
                    >> (self.right_var_eta[s][i] == 0))''', '''                if i > 0:
                    self.grb_model.addConstr(
                        (self.right_var_pi[s] == 0)
                        >> (self.right_var_eta[s][i] == 0))''')], '''
from inst import *
from src.refiner.CostRefiner import CostRefiner
i = load([[[9., 1.]], [[1., 9.]], [[9., 9.]]], [3.], [5., 4.], 0.2)
r = CostRefiner(i, use_acc_obj=True)
with quiet():
    v, a, b = r.accurate_obj_split([0, 1, 2], [0, 1, 2])
from src.Evaluator import Evaluator
e = Evaluator(i)
c = max(e.subset_cost(a)[0], e.subset_cost(b)[0])
assert abs(c - v) < 1e-4, (c, v)
''', 'a split where dropping scenarios from the right side matters', 'an unassigned scenario contributes to the bound of the right side')

bug('C20-short-build', 'C20', [('src/solver/Solver.py', '        real_time_limit = time_limit - (end_build - start_build)\n', '''        real_time_limit = time_limit
        if end_build - start_build > 1:
            real_time_limit -= end_build - start_build
''')], '''
from inst import *
from src.solver.Solver import Solver
import src.solver.Solver as M
i = rand(4, 1, 2)
s = Solver(i, 100., 1e-4)
t = iter([10., 10.5, 11., 11., 11., 11., 11., 11.])


class T:
    @staticmethod
    def time():
        return next(t)


seen = {}
import gurobipy as gp
old = gp.Model.setParam
class Spy(M.CCLPModel):
    def solve(self, **k):
        seen['limit'] = self.grb_model.Params.TimeLimit
        return super().solve(**k)


M.CCLPModel = Spy
M.time = T
with quiet():
    s.solve_cclp_model(i, None, time_limit=20.)
assert abs(seen['limit'] - 19.5) < 1e-9, seen
''', 'a model that takes less than a second to build', 'the limit handed over is the remaining time less the time spent building')

bug('C20-split-anyway', 'C20', [(AP, '''            if real_gap <= self.gap:
                break
            if self._available_time() <= 0:
                print''', '''            if real_gap <= self.gap:
                break
            if self._available_time() <= 0 and not use_merger:
                print''')], '''
from inst import *
from src.solver.AdaptivePartitioner import AdaptivePartitioner
i = rand(8, 2, 3, eps=0.25)
log = []
with quiet():
    a = AdaptivePartitioner(i)
    left = [10.]
    a._available_time = lambda: left[0]
    a._upper_bound = lambda *k, **q: (np.ones(3), False)

    def lower(x):
        left[0] = 0.
        return 1.
    a._lower_bound = lower
    a._split = lambda x: log.append('split') or [0.]
    a._merge = lambda *k: log.append('merge')
    a.solve(None, use_merger=True)
assert log == [], log
''', 'time that runs out during the projection step of a run with merging', 'a further phase is started without time')


BUGS += [
 dict(id='C12-light-items', property='C12', edits=[('violations.h', '        if (weights[i] <= 1e-6) {', '        if (weights[i] == 0) {')],
  needs='a coefficient that is positive but at most 1e-6', breaks='such an item is added by neither loop, so the table misses its profit',
  demo="""
from inst import *
from violations import compute_all_violations
A = np.array([[[50., 10.]], [[1e-7, 10.]]])
b = np.array([[30.], [10.]])
t = compute_all_violations(A, b)
# x = (1, 0.9) satisfies the constraint of scenario 1 and violates that of scenario 0 by 29
assert t[0, 1, 0] >= 29 - 1e-5, t[0, 1, 0]
"""),
]
