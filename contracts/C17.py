"""C17: get_z_start; the start values handed to the partitioned problem; the deletions it is given"""
from dv.spec import *


def post(r, c, N, z, D, d):
    """c: content of the start values for old indicators z[0..N) and deletions d[0..D)"""
    isdel = lambda i: r.exists(D, lambda q: cmp_('==', d(q), i))
    new = lambda i: r.sum(i, lambda q: ite(isdel(q), 0, 1))
    i = r.int('i', 0)
    r.assume(cmp_('<', i, N))
    # new position = old position minus the deleted subsets before it
    r.ensure('new position', cmp_('==', new(i), arith('-', i, r.sum(i, lambda q: ite(isdel(q), 1, 0)))))
    r.ensure('a surviving selected subset starts at one', b_implies(
        b_and(cmp_('==', z(i), 1), b_not(isdel(i))), b_and(c.has(new(i)), cmp_('==', c.get(new(i)), 1))))
    k = r.int('k')
    src = r.exists(N, lambda q: b_and(cmp_('==', z(q), 1), b_not(isdel(q)), cmp_('==', new(q), k)))
    r.ensure('no other indicator has a start value', b_implies(c.has(k), src))
    r.ensure('every start value is one', b_implies(c.has(k), cmp_('==', c.get(k), 1)))


def inputs(r):
    N = r.int('old_subsets', 0)
    z = r.fn('z', [I], RS)
    D = r.int('nb_deleted', 0)
    d = r.fn('deleted', [I], I)
    return N, z, D, d


def z_start(r):
    W = r.it.call(r.cls('src.Warmstarter', 'Warmstarter'), [], {})
    N, z, D, d = inputs(r)
    zl = r.it.new_list(Fn(N, lambda k: z(k)))
    dl = r.it.new_list(Fn(D, lambda k: d(k)))
    r.canary()
    out = r.call(W, 'get_z_start', zl, dl)
    r.no_raise()
    post(r, r.it.content(out), N, z, D, d)


def partition_bound(r):
    """the start values handed to the partitioned problem are those of the given solution and deletions"""
    N, z, D, d = inputs(r)
    K = r.int('subsets', 1)
    seen = {}

    def solve(it, a, k):
        seen['z'] = k.get('z_start')
        return (r.vec('x', 3), r.vec('znew', K), r.real('v_obj'), r.real('v_bnd'))
    part = r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'), continuous_var=r.bool('cont'))
    U = r.it.call(r.cls('src.UpperBounder', 'UpperBounder'), [part, 'cost', 'cost'], {})
    ap = r.obj(r.cls('src.solver.Solver', 'Solver'), solve_cclp_model=Builtin('solve_cclp_model', solve),
               did_merge=r.bool('did_merge'), MERGE_TOL=Fraction(1), vUB=r.real('vUB'), xUB=r.vec('xUB', 3))
    # the sanity check of the returned solution does not concern the start values
    r.it.assert_mode = 'raise'
    zl = r.it.new_nd(Nd((N,), lambda k: z(k), 'f'))
    dl = r.it.new_list(Fn(D, lambda k: d(k)))
    costs = r.lst('cost', K, sort=RS)
    r.canary()
    r.call(U, 'partition_bound', ap, costs, r.real('vLB'), zl, dl, None, r.real('left'), r.bool('bigm'), r.bool('lazy'))
    if 'z' not in seen or seen['z'] is None:
        r.ensure('start values are handed over', False)
        return
    post(r, r.it.content(seen['z']), N, z, D, d)


def handed(r):
    """the upper-bound step uses the last indicator solution and the deletions of the last iteration's merge"""
    seen = {}
    AP = r.cls('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')

    def pb(it, a, k):
        f = dict(zip(['ap', 'subset_costs', 'vLB', 'zUB', 'deleted_subsets', 'bigMFinder', 'real_time_left', 'use_big_M', 'use_lazy'], a))
        f.update(k)
        seen.update(f)
        raise DeadPath()
    ub = r.obj(r.cls('src.UpperBounder', 'UpperBounder'), partition_bound=Builtin('partition_bound', pb))
    mg = r.obj(r.cls('src.Merger', 'Merger'), deleted_subsets=r.lst('deleted'))
    n = r.int('nb_subsets', 1)
    z = r.vec('zUB', n)
    o = r.obj(AP, upperbounder=ub, merger=mg, nb_subsets=n, minimum_partition_size=r.int('mu'), zUB=z,
              subset_costs=r.lst('cost', n, sort=RS), subset_sols=r.lst('sol', n, sort=RS), vLB=r.real('vLB'),
              vUB=r.real('vUB'), xUB=r.vec('x', 3))
    r.it.summaries['UpperBounder.first_iteration_bound'] = lambda it, a, k: (_ for _ in ()).throw(DeadPath())
    r.it.summaries['Solver._available_time'] = lambda it, a, k: r.real('left', 0)
    d0 = r.seq(r.fld(mg, 'deleted_subsets'))
    r.canary()
    r.call_until(o, '_upper_bound', None, r.bool('bigm'))
    ok = 'zUB' in seen
    r.ensure('a partitioned problem is solved', ok)
    if not ok:
        return
    zz = r.nd(seen['zUB'])
    i = r.int('i')
    r.ensure('last indicator solution', b_and(cmp_('==', zz.shape[0], n), cmp_('==', zz.at(i), r.nd(z).at(i))))
    dd = r.seq(seen['deleted_subsets'])
    r.ensure('deletions of the last merge', b_and(cmp_('==', dd.n, d0.n), b_implies(
        b_and(cmp_('<=', 0, i), cmp_('<', i, d0.n)), cmp_('==', dd.at(i), d0.at(i)))))


def merge_step(r):
    """after the merge step the stored deletions are those of this step's merge, and none without a merge"""
    AP = r.cls('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')
    C = r.int('deleted_now', 1)
    dn = r.fn('deleted_now_at', [I], I)
    new = r.lst('new_partition', sort=I)
    old = r.lst('old_partition', sort=I)
    n1 = r.int('n1', 1)
    mg = r.obj(r.cls('src.Merger', 'Merger'), deleted_subsets=r.lst('stale'), target_subsets=r.lst('stale_targets'))
    o = r.obj(AP, merger=mg, partition=old, nb_subsets=r.int('nb_subsets', 1), minimum_partition_size=n1,
              did_merge=r.bool('stale_flag'), vUB=r.real('vUB'), subset_costs=r.lst('cost', sort=RS), MERGE_TOL=Fraction(1),
              refiner=r.obj(r.cls('src.refiner.Refiner', 'Refiner'), feasible_subsets=r.lst('feasible'), mu=r.int('mu', 1)))

    def merged(it, a, k):
        it.setattr(mg, 'deleted_subsets', it.new_list(Fn(C, lambda q: dn(q))))
        return (new, n1)
    for f in ('merge_all', 'merge_feasible', 'merge'):
        r.it.summaries['Merger.' + f] = merged
    r.it.summaries['AdaptivePartitioner._post_merge_processing'] = lambda it, a, k: None
    # precondition (contract of _merge_all_feasible_subsets, C08): some subset is not feasible
    ns, so, q = r.int('sorted', 1), r.fn('sorted_at', [I], I), r.int('not_feasible', 0)
    fs = r.seq(r.fld(r.fld(o, 'refiner'), 'feasible_subsets'))
    r.assume(b_and(cmp_('<', q, ns), r.forall(fs.n, lambda k: b_not(cmp_('==', fs.at(k), so(q))))))
    r.it.summaries['Merger.sort_subset_costs'] = lambda it, a, k: r.it.new_list(Fn(ns, lambda k: so(k)))
    r.it.assert_mode = 'raise'
    nc = r.lst('new_cost', r.int('new_subsets', 1), sort=RS)
    r.canary()
    r.call(o, '_merge', r.vec('x', 3), nc, r.bool('use_merger'))
    d = r.seq(r.fld(mg, 'deleted_subsets'))
    did = r.fld(o, 'did_merge')
    i = r.int('i', 0)
    r.ensure('no deletions without a merge', b_implies(b_not(did), cmp_('==', d.n, 0)))
    r.ensure('deletions of this merge', b_implies(did, b_and(cmp_('==', d.n, C), b_implies(cmp_('<', i, C), cmp_('==', d.at(i), dn(i))))))
    p1, p0, pn = r.seq(r.fld(o, 'partition')), r.seq(old), r.seq(new)
    r.ensure('the partition is the merged one or the one before', b_and(
        b_implies(did, b_and(cmp_('==', p1.n, pn.n), b_implies(cmp_('<', i, pn.n), cmp_('==', p1.at(i), pn.at(i))))),
        b_implies(b_not(did), b_and(cmp_('==', p1.n, p0.n), b_implies(cmp_('<', i, p0.n), cmp_('==', p1.at(i), p0.at(i)))))))


CONTRACTS = [('_merge', merge_step), ('get_z_start', z_start), ('partition_bound', partition_bound), ('_upper_bound', handed)]
