"""C16: the bounds bracket the optimum in every phase and at the end; the gap

Points are opaque numbers: sat(x) = x is chance-feasible, obj(x) = its objective; opt = the largest objective of a
chance-feasible point.  The phases are proved one by one and enter the main loop by these contracts."""
from dv.spec import *
from dv import hoare

AP = ('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')
STEP = Fraction(1, 10 ** 8)


class World:
    def __init__(self, r):
        self.r = r
        self.sat = r.fn('chance_feasible', [I], B)
        self.obj = r.fn('objective', [I], RS)
        self.opt = r.real('optimum')
        self.star = r.int('best_point')
        r.assume(b_and(self.sat(self.star), cmp_('==', self.obj(self.star), self.opt)))
        x = r.ctx.bound('x')
        r.assume(z3.ForAll([x], z3.Implies(self.sat(x), self.obj(x) <= self.opt), patterns=[self.sat(x)]))

    def bounds(self):
        """vLB, vUB, xLB, xUB with the invariant"""
        r = self.r
        lb = XR(False, r.bool('no_lower_bound'), r.real('vLB'))
        ub = XR(r.bool('no_upper_bound'), False, r.real('vUB'))
        xl, xu = r.int('xLB'), r.int('xUB')
        r.assume(self.ok(lb, ub, xl))
        return lb, ub, xl, xu

    def ok(self, lb, ub, xl):
        return b_and(self.lower_ok(lb, xl), self.upper_ok(ub))

    def lower_ok(self, lb, xl):
        return b_or(cmp_('==', lb, NINF), b_and(self.sat(xl), cmp_('==', lb, self.obj(xl))))

    def attains(self, x, v):
        """x is chance-feasible and attains the bound v (up to the tolerance with which the solver proves an optimum)"""
        return b_and(self.sat(x), cmp_('<=', self.obj(x), v), cmp_('<=', v, arith('+', self.obj(x), STEP)))

    def upper_ok(self, ub):
        return cmp_('>=', ub, self.opt)

    def of(self, o):
        r = self.r
        return r.fld(o, 'vLB'), r.fld(o, 'vUB'), r.fld(o, 'xLB'), r.fld(o, 'xUB')

    def fresh(self, o, what):
        lb, ub, xl, xu = self.bounds()
        return lb, ub, xl, xu


def gap_of(lb, ub):
    """None where it is infinite"""
    return b_or(cmp_('==', lb, NINF), cmp_('==', ub, PINF), b_and(cmp_('==', lb, 0), b_not(cmp_('==', ub, 0))))


def is_gap(g, lb, ub):
    inf = gap_of(lb, ub)
    l, u = xr(lb).v, xr(ub).v
    fin = cmp_('==', arith('*', g if not isinstance(g, XR) else g.v, ite(cmp_('<', l, 0), arith('-', 0, l), l)), arith('-', u, l))
    return b_and(b_implies(inf, cmp_('==', g, PINF)),
                 b_implies(b_not(inf), b_and(b_not(cmp_('==', g, PINF)), b_not(cmp_('==', g, NINF)), fin,
                                             b_implies(b_and(cmp_('==', u, l)), cmp_('==', g, 0)))))


def gap(r):
    lb = XR(False, r.bool('no_lower_bound'), r.real('vLB'))
    ub = XR(r.bool('no_upper_bound'), False, r.real('vUB'))
    o = r.obj(r.cls('src.solver.Solver', 'Solver'), vLB=lb, vUB=ub)
    r.canary()
    g = r.call(o, '_compute_gap')
    r.no_raise()
    r.ensure('distance of the bounds relative to the magnitude of the lower bound', is_gap(g, lb, ub))
    r.ensure('zero where the bounds coincide', b_implies(b_and(cmp_('==', lb, ub)), cmp_('==', g, 0)))
    r.ensure('not negative while the bounds bracket something', b_implies(cmp_('<=', lb, ub), cmp_('>=', g, 0)))


def initial(r):
    r.it.summaries['Evaluator'] = lambda it, a, k: r.obj(r.cls('src.Evaluator', 'Evaluator'))
    r.canary()
    s = r.it.call(r.cls('src.solver.Solver', 'Solver'), [r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance')), r.real('limit', 0), r.real('gap', 0)], {})
    r.no_raise()
    r.ensure('no bounds at first', b_and(cmp_('==', r.fld(s, 'vLB'), NINF), cmp_('==', r.fld(s, 'vUB'), PINF)))


def quantile(r):
    """_setup_initial_partition: the first upper bound is the quantile bound (valid: C13) or none"""
    W = World(r)
    S = r.int('S', 1)
    q = r.real('quantile')
    r.assume(cmp_('>=', q, W.opt))
    seen = {}
    costs = r.lst('scenario_cost', S, sort=RS)
    pr = r.vec('p', S)
    eps = r.real('epsilon', 0)
    r.assume(eps < 1)
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), nb_scenarios=S, epsilon=eps, proba=pr)

    def ahmed(it, a, k):
        f = dict(zip(['scenario_costs', 'proba', 'epsilon'], a[1:]))
        f.update(k)
        seen.update(f)
        return q
    r.it.summaries['UpperBounder.ahmed_et_al_bound'] = ahmed
    r.it.summaries['Initializer.create_first_partition'] = lambda it, a, k: r.lst('partition')
    r.it.summaries['PartitionChanceKnapInstance.load_partition'] = lambda it, a, k: None
    kind = r.bool('cost_partition')
    for typ in ('cost', 'random'):
        seen.clear()
        ini = r.obj(r.cls('src.Initializer', 'Initializer'), scenario_costs=costs)
        o = r.obj(r.cls(*AP), chance_instance=inst, initializer=ini, initial_partition_type=typ, vUB=PINF, vLB=NINF,
                  upperbounder=r.obj(r.cls('src.UpperBounder', 'UpperBounder')),
                  chance_instance_part=r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance')))
        if typ == 'cost':
            r.canary()
        r.call(o, '_setup_initial_partition')
        r.no_raise()
        r.ensure('valid upper bound (%s)' % typ, W.upper_ok(r.fld(o, 'vUB')))
        r.ensure('no lower bound yet (%s)' % typ, cmp_('==', r.fld(o, 'vLB'), NINF))
        if 'scenario_costs' in seen:
            i = r.int('i', 0)
            r.assume(cmp_('<', i, S))
            c = r.seq(seen['scenario_costs'])
            r.ensure('quantile of the scenario costs, probabilities and epsilon of the instance',
                     b_and(cmp_('==', c.n, S), cmp_('==', c.at(i), r.seq(costs).at(i)), cmp_('==', r.nd(seen['proba']).at(i), r.nd(pr).at(i)),
                           cmp_('==', seen['epsilon'], eps)))


def set_incumbent(r, W):
    """contract of LowerBounder.incumbent_bound (C14)"""
    def f(it, a, k):
        d = dict(zip(['candidate_sols', 'vUB', 'vLB', 'verbose'], a[1:]))
        d.update(k)
        x, v, found = r.int('incumbent'), r.real('incumbent_objective'), r.bool('found')
        r.assume(b_implies(found, b_and(W.sat(x), cmp_('==', W.obj(x), v), cmp_('>', v, d['vLB']), cmp_('<=', v, d['vUB']))))
        from dv.interp import IteV
        return (found, IteV(found, x, None), IteV(found, v, None))
    r.it.summaries['LowerBounder.incumbent_bound'] = f


def improve(r):
    W = World(r)
    lb, ub, xl, xu = W.bounds()
    set_incumbent(r, W)
    o = r.obj(r.cls(*AP), lowerbounder=r.obj(r.cls('src.LowerBounder', 'LowerBounder')), vLB=lb, vUB=ub, xLB=xl, xUB=xu)
    r.canary()
    r.call(o, '_improve_vlb_with_candidate_sols', r.lst('candidates'), verbose=r.bool('verbose'))
    r.no_raise()
    step(r, W, o, lb, ub, xl, xu)
    r.ensure('upper bound untouched', cmp_('==', r.fld(o, 'vUB'), ub))


def step(r, W, o, lb, ub, xl, xu):
    lb1, ub1, xl1, xu1 = W.of(o)
    r.ensure('the lower bound is the objective of the stored chance-feasible solution', W.lower_ok(lb1, xl1))
    r.ensure('no chance-feasible point above the upper bound', W.upper_ok(ub1))
    r.ensure('the lower bound does not decrease', cmp_('>=', lb1, lb))
    r.ensure('the upper bound does not increase', cmp_('<=', ub1, arith('+', ub, STEP)))


def upper(r):
    """_upper_bound.  Subset costs are attained and bound every point that satisfies the subset (C09, C06); a chance-feasible
    point satisfies some subset of a minimal partition (C03); bound of the pruned partitioned problem: C10, C15; with time
    left the solver ended with a proved optimum"""
    W = World(r)
    lb, ub, xl, xu = W.bounds()
    n, least = r.int('nb_subsets', 1), r.int('minimum_partition_size', 1)
    cost, sol = r.fn('subset_cost', [I], RS), r.fn('subset_sol', [I], I)
    costs, sols = r.it.new_list(Fn(n, lambda k: cost(k))), r.it.new_list(Fn(n, lambda k: sol(k)))
    r.assume(r.forall(n, lambda k: cmp_('==', cost(k), W.obj(sol(k)))))
    home = r.int('subset_of_the_best_point', 0)
    r.assume(b_implies(cmp_('==', n, least), b_and(cmp_('<', home, n), cmp_('>=', cost(home), W.opt))))
    st = dict(proved=None)

    def pbound(it, a, k):
        f = dict(zip(['ap', 'subset_costs', 'vLB', 'zUB', 'deleted_subsets', 'bigMFinder', 'real_time_left', 'use_big_M', 'use_lazy'], a[1:]))
        f.update(k)
        x, vo, vb = r.int('relaxed'), r.real('v_obj'), r.real('v_bnd')
        c, q = r.seq(f['subset_costs']), r.ctx.fresh('c', I)
        r.ctx.pos = 'precondition of partition_bound'
        r.ctx.assume(b_and(q >= 0, cmp_('<', q, n)))
        r.ctx.oblige('prunes by the costs of the subsets', b_and(cmp_('==', c.n, n), cmp_('==', c.at(q), cost(q))))
        r.ctx.assume(b_implies(cmp_('>=', W.opt, f['vLB']), cmp_('>=', vb, W.opt)))
        r.ctx.assume(cmp_('==', vo, W.obj(x)))
        # parameter MIPGap of the partitioned problem
        st['proved'] = b_and(cmp_('<=', vo, vb), cmp_('<=', vb, arith('+', vo, STEP)))
        return (x, r.vec('z', n), vo, vb)

    def left(it, a, k):
        t = r.real('left', 0)
        if st['proved'] is not None:
            r.ctx.assume(b_implies(cmp_('>', t, 0), st['proved']))
        return t
    r.it.summaries['UpperBounder.partition_bound'] = pbound
    r.it.summaries['Solver._available_time'] = left
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'))
    feas = lambda it, a, k: W.sat(IT(a[-1]))
    r.it.summaries['ChanceInstance.check_feasibility'] = feas
    r.it.summaries['ChanceKnapInstance.check_feasibility'] = feas
    for c in ('ChanceInstance', 'ChanceKnapInstance'):
        r.it.summaries[c + '.get_feasible_scenarios'] = lambda it, a, k: r.vec('feasible', r.int('S', 1), sort=I)
    r.it.summaries['LowerBounder.save_feasible_scenarios'] = lambda it, a, k: None
    info = {}

    def store(it, a, k):
        f = dict(zip(['iteration', 'nb_subsets', 'vLB', 'vUB', 'gap'], a[1:]))
        f.update(k)
        r.ctx.pos = 'stored iteration line'
        r.ctx.oblige('the stored bounds are the current ones', b_and(cmp_('==', f['vLB'], r.fld(o, 'vLB')), cmp_('==', f['vUB'], r.fld(o, 'vUB'))), assume_after=False)
        r.ctx.oblige('the stored gap is that of the current bounds', is_gap(f['gap'], r.fld(o, 'vLB'), r.fld(o, 'vUB')), assume_after=False)
    r.it.summaries['Informer.store_iteration_info'] = store
    o = r.obj(r.cls(*AP), upperbounder=r.obj(r.cls('src.UpperBounder', 'UpperBounder')), merger=r.obj(r.cls('src.Merger', 'Merger'), deleted_subsets=r.lst('deleted')),
              nb_subsets=n, minimum_partition_size=least, zUB=r.vec('zUB', n), subset_costs=costs, subset_sols=sols, vLB=lb, vUB=ub, xLB=xl, xUB=xu,
              chance_instance=inst, lowerbounder=r.obj(r.cls('src.LowerBounder', 'LowerBounder')), informer=r.obj(r.cls('src.Informer', 'Informer')),
              iteration=r.int('iteration', 1))
    r.assume(cmp_('>=', n, least))
    r.canary()
    x, ok = r.call(o, '_upper_bound', None, r.bool('bigm'), use_lazy=r.bool('lazy'))
    r.no_raise()
    ok = r.it.truth(ok)
    step(r, W, o, lb, ub, xl, xu)
    lb1, ub1, xl1, xu1 = W.of(o)
    r.ensure('lower bound untouched', b_and(cmp_('==', lb1, lb), b_or(cmp_('==', lb, NINF), cmp_('==', xl1, xl))))
    r.ensure('reported as feasible only with a chance-feasible solution that attains the upper bound', b_implies(ok, W.attains(xu1, ub1)))


def lower(r):
    """_lower_bound; deterministic_bound by its contract (C14)"""
    from dv.interp import IteV
    W = World(r)
    lb, ub, xl, xu = W.bounds()
    L = r.obj(r.cls('src.LowerBounder', 'LowerBounder'), vLB=XR(False, r.bool('stale_none'), r.real('stale')))

    def project(it, a, k):
        none, x, v = r.bool('no_solution'), r.int('projected'), r.real('projected_objective')
        r.ctx.pos = 'precondition of deterministic_bound'
        r.ctx.oblige('the projection knows the current lower bound', cmp_('==', it.getattr(L, 'vLB'), r.fld(o, 'vLB')))
        r.ctx.assume(b_or(none, b_and(W.sat(x), cmp_('==', W.obj(x), v))))
        r.ctx.assume(b_implies(none, cmp_('==', v, -10 ** 6)))
        return (IteV(b_not(none), x, None), v)
    r.it.summaries['LowerBounder.deterministic_bound'] = project

    def store(it, a, k):
        f = dict(zip(['iteration', 'nb_subsets', 'vLB', 'vUB', 'gap'], a[1:]))
        f.update(k)
        r.ctx.pos = 'stored iteration line'
        r.ctx.oblige('the stored bounds are the current ones', b_and(cmp_('==', f['vLB'], r.fld(o, 'vLB')), cmp_('==', f['vUB'], r.fld(o, 'vUB'))), assume_after=False)
        r.ctx.oblige('the stored gap is that of the current bounds', is_gap(f['gap'], r.fld(o, 'vLB'), r.fld(o, 'vUB')), assume_after=False)
    r.it.summaries['Informer.store_iteration_info'] = store
    o = r.obj(r.cls(*AP), lowerbounder=L, vLB=lb, vUB=ub, xLB=xl, xUB=xu, informer=r.obj(r.cls('src.Informer', 'Informer')),
              iteration=r.int('iteration', 1), nb_subsets=r.int('nb_subsets', 1))
    r.canary()
    g = r.call(o, '_lower_bound', r.int('point'))
    r.no_raise()
    r.it.ctx.pos = 'postcondition'
    xl1 = r.fld(o, 'xLB')
    none = is_none(xl1)
    r.ensure('a stored lower bound has a solution', b_or(cmp_('==', r.fld(o, 'vLB'), NINF), b_not(none)))
    r.it.setattr(o, 'xLB', strip_none(xl1))
    step(r, W, o, lb, ub, xl, xu)
    r.ensure('upper bound untouched', cmp_('==', r.fld(o, 'vUB'), ub))
    r.ensure('the gap of the current bounds is returned', is_gap(g, r.fld(o, 'vLB'), ub))


def is_none(v):
    from dv.interp import IteV
    if v is None:
        return True
    if isinstance(v, IteV):
        return b_ite(v.c, is_none(v.a), is_none(v.b))
    return False


def strip_none(v):
    from dv.interp import IteV
    if isinstance(v, IteV):
        a, b = strip_none(v.a), strip_none(v.b)
        return b if a is None else a if b is None else ite(v.c, a, b)
    return v


class Run_(hoare.Spec):
    def __init__(self, r, W, o):
        self.r, self.W, self.o, self.flags = r, W, o, None

    def inv(self, it, k):
        lb, ub, xl, xu = self.W.of(self.o)
        h = it.st.heap
        if self.flags is None:
            self.flags = [n for n, v in it.st.env.items() if v is False]
        return [('a feasible relaxed solution is remembered', b_or(cmp_('==', h['feasible'], 0), *[it.truth(it.st.env[n]) for n in self.flags if n in it.st.env])),
                ('the lower bound is attained by the stored solution', self.W.lower_ok(lb, xl)),
                ('the upper bound is valid', self.W.upper_ok(ub)),
                ('the lower bound did not decrease', cmp_('>=', lb, h['lowest'])),
                ('feasible relaxed solution: attains the upper bound',
                 b_implies(cmp_('==', h['feasible'], 1), self.W.attains(xu, ub)))]


def run(r):
    """solve: any sequence of iterations, stopped anywhere by the clock; phases by the contracts above"""
    W = World(r)
    lb, ub, xl, xu = W.bounds()
    r.assume(b_not(cmp_('==', lb, PINF)))
    h = r.it.st.heap
    h['feasible'] = 0
    h['lowest'] = lb

    def raised(o):
        old, oub, oxl, oxu = W.of(o)
        nlb, nub, nxl, nxu = W.bounds()
        r.ctx.assume(cmp_('>=', nlb, old))
        r.it.setattr(o, 'vLB', nlb)
        r.it.setattr(o, 'xLB', nxl)
        r.it.st.heap['lowest'] = nlb

    def upper(it, a, k):
        nlb, nub, nxl, nxu = W.bounds()
        ok = r.bool('is_feasible')
        r.ctx.assume(cmp_('<=', nub, arith('+', r.fld(o, 'vUB'), STEP)))
        r.ctx.assume(b_implies(ok, W.attains(nxu, nub)))
        it.setattr(o, 'vUB', nub)
        it.setattr(o, 'xUB', nxu)
        it.st.heap['feasible'] = ite(ok, 1, 0)
        return (r.int('relaxed'), ok)

    def lower(it, a, k):
        raised(o)
        return XR(r.bool('no_gap'), False, r.real('real_gap'))

    def split(it, a, k):
        raised(o)
        return r.lst('new_costs', sort=RS)

    def other(it, a, k):
        raised(o)
    S = r.it.summaries
    S['AdaptivePartitioner._upper_bound'] = upper
    S['AdaptivePartitioner._lower_bound'] = lower
    S['AdaptivePartitioner._split'] = split
    S['AdaptivePartitioner._merge'] = other
    S['AdaptivePartitioner._big_M'] = lambda it, a, k: None
    S['AdaptivePartitioner._improve_vlb_with_candidate_sols'] = other
    S['Solver._available_time'] = lambda it, a, k: r.real('left', 0)
    S['Informer.print_iter_info'] = lambda it, a, k: None
    cost = lambda it, a, k: (r.lst('costs', sort=RS), r.lst('sols', sort=I))
    o = r.obj(r.cls(*AP), evaluator=r.obj(r.cls('src.Evaluator', 'Evaluator'), partition_cost=Builtin('partition_cost', cost)),
              partition=r.lst('partition'), informer=r.obj(r.cls('src.Informer', 'Informer')),
              vUB=ub, vLB=lb, gap=r.real('gap', 0), xUB=xu, xLB=xl)
    sp = Run_(r, W, o)
    r.it.loop_spec = lambda it, s, seq: sp if seq is None else None
    r.canary()
    r.call(o, 'solve', None, r.bool('bigm'), 'belotti', r.bool('merger'), r.bool('lazy'))
    r.no_raise()
    h = r.it.st.heap
    lb1, ub1, xl1, xu1 = W.of(o)
    fin = cmp_('==', h['feasible'], 1)
    r.ensure('the lower bound is the objective of the stored chance-feasible solution', b_or(fin, W.lower_ok(lb1, xl1)))
    r.ensure('no chance-feasible point above the upper bound', W.upper_ok(ub1))
    r.ensure('the last step does not lower the lower bound', cmp_('>=', lb1, h['lowest']))
    r.ensure('stopped with a feasible relaxed solution: the bounds coincide', b_implies(fin, cmp_('==', lb1, ub1)))
    r.ensure('stopped with a feasible relaxed solution: the stored solution attains them', b_implies(fin, W.attains(xl1, lb1)))


def frame(r, name):
    """_split and _merge touch the bounds only through the incumbent search"""
    W = World(r)
    lb, ub, xl, xu = W.bounds()

    def imp(it, a, k):
        nlb, nub, nxl, nxu = W.bounds()
        r.ctx.assume(cmp_('>=', nlb, r.fld(o, 'vLB')))
        it.setattr(o, 'vLB', nlb)
        it.setattr(o, 'xLB', nxl)
    S = r.it.summaries
    S['AdaptivePartitioner._improve_vlb_with_candidate_sols'] = imp
    S['PartitionChanceKnapInstance.load_partition'] = lambda it, a, k: None
    cost = lambda it, a, k: (r.real('cost'), r.int('sol'))
    S['Evaluator.subset_cost'] = cost
    S['Refiner.refine'] = lambda it, a, k: (r.int('nb_subsets', 1), r.lst('refined', sort=I))
    S['Merger.sort_subset_costs'] = lambda it, a, k: r.lst('sorted', sort=I)
    mg = r.obj(r.cls('src.Merger', 'Merger'), deleted_subsets=r.lst('deleted'), target_subsets=r.lst('targets'))
    least = r.int('minimum_partition_size', 1)

    def merged(it, a, k):
        it.setattr(mg, 'deleted_subsets', r.lst('deleted'))
        it.setattr(mg, 'target_subsets', r.lst('targets'))
        return (r.lst('merged', sort=I), least)
    S['Merger.merge_all'] = merged
    S['Merger.merge_feasible'] = merged
    n = r.int('nb_subsets', 1)
    o = r.obj(r.cls(*AP), refiner=r.obj(r.cls('src.refiner.Refiner', 'Refiner'), feasible_subsets=r.lst('feasible'), mu=r.int('mu', 1), new_subsets=r.lst('new_subsets')),
              merger=mg, evaluator=r.obj(r.cls('src.Evaluator', 'Evaluator')), partition=r.lst('partition', n), nb_subsets=n,
              minimum_partition_size=least, subset_costs=r.lst('cost', n, sort=RS), subset_sols=r.lst('sol', n), did_merge=r.bool('did_merge'),
              chance_instance_part=r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance')),
              vLB=lb, vUB=ub, xLB=xl, xUB=xu)
    r.it.loop_spec = lambda it, s, seq: hoare.Spec()
    r.it.assert_mode = 'raise'
    r.ctx.no_safety = True
    r.canary()
    if name == '_split':
        r.call(o, '_split', r.int('point'))
    else:
        r.call(o, '_merge', r.int('point'), r.lst('new_cost', r.int('new_subsets', 1), sort=RS), r.bool('use_merger'))
    r.it.top_raises = []        # indices: C08
    step(r, W, o, lb, ub, xl, xu)
    r.ensure('upper bound and its solution untouched', b_and(cmp_('==', r.fld(o, 'vUB'), ub), cmp_('==', r.fld(o, 'xUB'), xu)))


def split(r):
    frame(r, '_split')


def merge(r):
    frame(r, '_merge')


CONTRACTS = [('_split', split), ('_merge', merge), ('_compute_gap', gap), ('Solver.__init__', initial), ('_setup_initial_partition', quantile), ('_improve_vlb_with_candidate_sols', improve),
             ('_upper_bound', upper), ('_lower_bound', lower), ('solve', run)]
