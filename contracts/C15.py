"""C15: first-iteration bound, partitioned bound and pruning"""
from dv.spec import *

TOL = Fraction(1, 1000)


def part_bound(r, n, costs, U, ap, vLB, **kw):
    args = dict(adaptivePartitioner=ap, subset_costs=costs, vLB=vLB, zUB=r.vec('zUB', n), deleted_subsets=r.lst('deleted'), bigMFinder='finder',
                real_time_left=r.real('left'), use_big_M=r.bool('bigm'), use_lazy=r.bool('lazy'))
    args.update(kw)
    return r.call(U, 'partition_bound', *args.values())


def first(r):
    n = r.int('nb_subsets', 1)
    cost = r.fn('cost', [I], RS)
    nv = r.int('nb_vars', 1)
    sol = r.fn('sol', [I, I], RS)
    costs = r.it.new_list(Fn(n, lambda i: cost(i)))
    sols = r.it.new_list(Fn(n, lambda i: Frozen(Nd((nv,), lambda j: sol(i, j), 'f'), None, 'nd')))
    U = r.it.call(r.cls('src.UpperBounder', 'UpperBounder'), [None, None, None], {})
    r.canary()
    x, z, v, b = r.call(U, 'first_iteration_bound', costs, sols)
    r.no_raise()
    i = r.int('i', 0)
    r.assume(cmp_('<', i, n))
    r.ensure('no subset cost above the bound', cmp_('<=', cost(i), v))
    r.ensure('objective and bound coincide', cmp_('==', v, b))
    zz = r.nd(z)
    r.ensure('one indicator per subset', cmp_('==', zz.shape[0], n))
    r.ensure('indicators are zero or one', b_or(cmp_('==', zz.at(i), 0), cmp_('==', zz.at(i), 1)))
    m = r.obtain('a subset is selected', n, lambda k: cmp_('==', zz.at(k), 1))
    r.ensure('only one subset is selected', b_implies(cmp_('==', zz.at(i), 1), cmp_('==', i, m)))
    r.ensure('the selected subset has the largest cost', cmp_('==', cost(m), v))
    j = r.int('j', 0)
    r.assume(cmp_('<', j, nv))
    xx = r.nd(x)
    r.ensure('the solution is that of the selected subset', b_and(cmp_('==', xx.shape[0], nv), cmp_('==', xx.at(j), sol(m, j))))
    # consequence: a point that satisfies every scenario of some subset is not better (its objective o is at most that
    # subset's cost)
    o = r.real('objective')
    full = r.int('satisfied_subset', 0)
    r.assume(b_and(cmp_('<', full, n), cmp_('<=', o, cost(full))))
    r.ensure('no point satisfying a whole subset is better', cmp_('<=', o, b))


def pruned(r):
    """only subsets of cost at most vLB - 1e-3 are pruned; no better chance-feasible point is lost"""
    n = r.int('nb_subsets', 1)
    cost = r.fn('cost', [I], RS)
    seen = {}
    res = (r.vec('x', 3), r.vec('z', n), r.real('v_obj'), r.real('v_bnd'))

    def solve(it, a, k):
        f = dict(zip(['inst', 'finder', 'z_start', 'prune_indices', 'time_limit', 'elapsed_time', 'gap', 'use_one_thread', 'use_big_M', 'use_lazy'], a))
        f.update({('inst' if q == 'chance_instance_part' else 'finder' if q == 'bigMFinder' else q): v for q, v in k.items()})
        seen.update(f)
        return res
    part = r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'), continuous_var=r.bool('cont'))
    U = r.it.call(r.cls('src.UpperBounder', 'UpperBounder'), [part, 'cost', 'cost'], {})
    ap = r.obj(r.cls('src.solver.Solver', 'Solver'), solve_cclp_model=Builtin('solve_cclp_model', solve),
               did_merge=r.bool('did_merge'), MERGE_TOL=Fraction(1), vUB=r.real('vUB'), xUB=r.vec('xUB', 3))
    r.it.assert_mode = 'raise'
    r.it.summaries['Warmstarter.get_z_start'] = lambda it, a, k: None
    vLB = r.real('vLB')
    bigm, lazy = r.bool('bigm'), r.bool('lazy')
    costs = r.it.new_list(Fn(n, lambda i: cost(i)))
    r.canary()
    out = part_bound(r, n, costs, U, ap, vLB, use_big_M=bigm, use_lazy=lazy)
    if not seen:
        r.ensure('the partitioned problem is solved', False)
        return
    r.ensure('the partitioned instance is solved', isinstance(seen['inst'], Ref) and seen['inst'].id == part.id)
    same = lambda u, v: b_and(b_or(u, b_not(v)), b_or(v, b_not(u)))
    r.ensure('with the requested kind of constraints', b_and(same(r.it.truth(seen.get('use_big_M', False)), bigm), same(r.it.truth(seen.get('use_lazy', False)), lazy)))
    r.ensure('and the given big-M provider', seen.get('finder') == 'finder')
    r.ensure('to optimality', cmp_('<=', seen.get('gap', Fraction(1, 10 ** 4)), Fraction(1, 10 ** 6)))
    pr = seen.get('prune_indices')
    p = r.seq(pr) if pr is not None else Lit([])
    q = r.int('q', 0)
    r.assume(cmp_('<', q, p.n))
    i = p.at(q)
    r.lemma('pruned subsets exist', b_and(cmp_('<=', 0, i), cmp_('<', i, n)))
    r.ensure('only subsets not better than the lower bound are pruned', cmp_('<=', cost(i), arith('-', vLB, TOL)))
    # consequence: a point of objective o above the lower bound satisfies no pruned subset (its objective is at most the cost of
    # each subset it satisfies), so it stays acceptable to the problem solved (C10) and its bound holds for it
    sat = r.fn('satisfied', [I], B)
    o = r.real('objective')
    r.assume(r.forall(n, lambda k: b_implies(sat(k), cmp_('<=', o, cost(k)))))
    r.ensure('no better point satisfies a pruned subset', b_implies(cmp_('>', o, vLB), b_not(sat(i))))
    x, z, v, b = out
    r.ensure('the bound of the problem is returned', b_and(cmp_('==', v, res[2]), cmp_('==', b, res[3])))
    r.ensure('with its solution', isinstance(x, Ref) and x.id == res[0].id and isinstance(z, Ref) and z.id == res[1].id)


def dispatch(r):
    """_upper_bound: which bound is taken, from what, and how it is stored"""
    seen = {}
    AP = r.cls('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')
    n, mu = r.int('nb_subsets', 1), r.int('minimum', 1)
    costs, sols = r.lst('cost', n, sort=RS), r.lst('sol', n, sort=RS)
    vLB, vUB, v_obj, v_bnd = r.real('vLB'), r.real('vUB'), r.real('v_obj'), r.real('v_bnd')
    z0, x0, x1, z1 = r.vec('zUB', n), r.vec('xUB', 3), r.vec('x_new', 3), r.vec('z_new', n)
    feas = r.bool('feasible')
    U = r.cls('src.UpperBounder', 'UpperBounder')
    o = None

    def taken(kind, names):
        def f(it, a, k):
            d = dict(zip(names, list(a)))
            d.update(k)
            g = list(r.ctx.guard)
            seen[kind] = (d, g)
            first_case = cmp_('==', n, mu)
            r.ctx.pos = 'precondition of ' + kind
            r.ctx.oblige('%s is taken for the right partitions' % kind, first_case if kind == 'first' else b_not(first_case), assume_after=False)
            ok = lambda v, w: isinstance(v, Ref) and v.id == w.id
            r.ctx.oblige('%s: the stored subset costs are used' % kind, ok(d.get('subset_costs'), costs), assume_after=False)
            if kind == 'first':
                r.ctx.oblige('first: the stored solutions are used', ok(d.get('subset_sols'), sols), assume_after=False)
            else:
                r.ctx.oblige('partitioned: the current lower bound is used', cmp_('==', d.get('vLB'), vLB), assume_after=False)
            return (x1, z1, v_obj, v_bnd)
        return Builtin(kind, f)
    ub = r.obj(U, first_iteration_bound=taken('first', ['subset_costs', 'subset_sols']),
               partition_bound=taken('partitioned', ['adaptivePartitioner', 'subset_costs', 'vLB', 'zUB', 'deleted_subsets', 'bigMFinder', 'real_time_left', 'use_big_M', 'use_lazy']))
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), check_feasibility=Builtin('check', lambda it, a, k: feas),
                 get_feasible_scenarios=Builtin('feas', lambda it, a, k: r.lst('feasible')))
    lb = r.obj(r.cls('src.LowerBounder', 'LowerBounder'), save_feasible_scenarios=Builtin('save', lambda it, a, k: None))
    o = r.obj(AP, upperbounder=ub, lowerbounder=lb, merger=r.obj(r.cls('src.Merger', 'Merger'), deleted_subsets=r.lst('deleted')), chance_instance=inst,
              nb_subsets=n, minimum_partition_size=mu, zUB=z0, subset_costs=costs, subset_sols=sols, vLB=vLB, vUB=vUB, xUB=x0, iteration=1,
              informer=r.obj(r.cls('src.Informer', 'Informer'), store_iteration_info=Builtin('store', lambda it, a, k: None)), gap=Fraction(1, 10 ** 4))
    left = r.fn('left', [I], RS)
    cnt = [0]

    def avail(it, a, k):
        cnt[0] += 1
        return left(cnt[0])
    r.it.summaries['Solver._available_time'] = avail
    r.canary()
    out = r.call(o, '_upper_bound', None, r.bool('bigm'))
    r.no_raise()
    x, f = out
    new = r.fld(o, 'vUB')
    TOL8 = Fraction(1, 10 ** 8)
    r.ensure('the upper bound is the old one or the bound obtained', b_or(cmp_('==', new, vUB), cmp_('==', new, v_bnd)))
    r.ensure('a smaller bound is taken or the time is over', b_or(cmp_('<=', new, arith('+', v_bnd, TOL8)), cmp_('<=', left(cnt[0]), 0), cmp_('>', v_bnd, arith('+', vUB, TOL8))))
    r.ensure('the upper bound does not increase (beyond the tolerance)', cmp_('<=', new, arith('+', vUB, TOL8)))


CONTRACTS = [('first_iteration_bound', first), ('partition_bound', pruned), ('_upper_bound', dispatch)]
