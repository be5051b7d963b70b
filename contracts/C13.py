"""C13: the quantile bound"""
from dv.spec import *


def bound(r):
    U = r.it.call(r.cls('src.UpperBounder', 'UpperBounder'), [None, None, None], {})
    S = r.int('S', 1)
    cost = r.fn('cost', [I], RS)
    p = r.fn('p', [I], RS)
    s = r.ctx.bound('s')
    r.assume(z3.ForAll([s], p(s) > 0, patterns=[p(s)]))
    core.NONNEG_DECLS.add(p(s).decl().name())
    r.assume(cmp_('==', r.sum(S, p), 1))
    eps = r.real('epsilon', 0)
    r.assume(eps <= Fraction(9999999, 10 ** 7))
    cl = r.vec('cl', S)
    cl = r.it.new_nd(Nd((S,), lambda k: cost(k), 'f'))
    pl = r.it.new_nd(Nd((S,), lambda k: p(k), 'f'))
    r.canary()
    v = r.call(U, 'ahmed_et_al_bound', cl, pl, eps)
    r.no_raise()
    if r.it.perms:
        r.perm_sum(S, p)
        sig = r.it.perms[-1][1]
        last = arith('-', S, 1)
        r.lemma('all probabilities', cmp_('==', arith('+', r.sum(last, lambda k: p(sig(k))), p(sig(last))), 1))
    TOL = Fraction(1, 10 ** 7)
    v = r.some('a bound is returned', v)
    # the order used by the code (if it sorts positions): the bound is found at the first position q where the
    # probabilities of the scenarios sorted so far exceed epsilon
    if r.it.perms:
        sig = r.it.perms[-1][1]
        r.perm_sum(S, p)
        run = lambda q: r.sum(q, lambda k: p(sig(k)))
        q = r.obtain('some position reaches epsilon', S, lambda q: b_and(
            cmp_('==', cost(sig(q)), v), cmp_('>=', run(arith('+', q, 1)), arith('+', eps, TOL)), cmp_('<', run(q), arith('+', eps, TOL))))
        le = lambda k: ite(cmp_('<=', cost(k), v), p(k), 0)
        lt = lambda k: ite(cmp_('<', cost(k), v), p(k), 0)
        for f in (le, lt):
            r.perm_sum(S, f)
        for m in (q, arith('+', q, 1)):
            r.cut_sum(S, m, lambda k: p(sig(k)))
        r.lemma('up to q', cmp_('>=', r.sum(S, lambda k: le(sig(k))), run(arith('+', q, 1))))
        r.lemma('below q', cmp_('<=', r.sum(S, lambda k: lt(sig(k))), run(q)))
    upto = r.sum(S, lambda k: ite(cmp_('<=', cost(k), v), p(k), 0))
    below = r.sum(S, lambda k: ite(cmp_('<', cost(k), v), p(k), 0))
    r.ensure('the bound is a scenario cost', r.exists(S, lambda k: cmp_('==', cost(k), v)))
    r.ensure('scenarios up to the bound exceed epsilon', cmp_('>=', upto, arith('+', eps, TOL)))
    r.ensure('scenarios below the bound do not', cmp_('<', below, arith('+', eps, TOL)))
    # consequence: a point with objective o and satisfied scenarios sat (o is at most the cost of each of them)
    sat = r.fn('satisfied', [I], B)
    o = r.real('objective')
    r.assume(r.forall(S, lambda k: b_implies(sat(k), cmp_('<=', o, cost(k)))))
    miss = r.sum(S, lambda k: ite(sat(k), 0, p(k)))
    hit = r.sum(S, lambda k: ite(sat(k), p(k), 0))
    r.assume(cmp_('==', arith('+', hit, miss), 1))      # lemmas/Sums.lean, sum_split
    r.assume(cmp_('>=', hit, arith('-', 1, eps)))
    r.ensure('no chance-feasible point is better', cmp_('<=', o, v))


def milp(r):
    """the big-M computation of the extended formulation takes the quantile of all single-scenario costs"""
    seen, ran = {}, {}
    S = r.int('S', 1)
    costs = r.lst('single_costs', S, sort=RS)
    proba = r.vec('proba', S)
    eps = r.real('epsilon', 0)
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), proba=proba, epsilon=eps)
    v = r.real('quantile')

    def ahmed(it, a, k):
        seen.update(zip(('scenario_costs', 'proba', 'epsilon'), a))
        seen.update(k)
        return v

    def belotti(it, a, k):
        ran.update(v=(list(a) + list(k.values()))[0])
    M = r.cls('src.solver.MilpSolver', 'MilpSolver')
    o = r.obj(M, chance_instance=inst, time_limit=r.real('limit'),
              evaluator=r.obj(r.cls('src.Evaluator', 'Evaluator'), get_all_single_scenario_costs=Builtin('costs', lambda it, a, k: costs)),
              upper_bounder=r.obj(r.cls('src.UpperBounder', 'UpperBounder'), ahmed_et_al_bound=Builtin('ahmed', ahmed)),
              big_m_finder=r.obj(r.cls('src.BigMFinder', 'BigMFinder'), run_belotti_et_al_big_M=Builtin('belotti', belotti)))
    r.it.summaries['Solver._available_time'] = lambda it, a, k: r.real('left', 0)
    r.canary()
    r.call(o, '_compute_big_m', 'belotti')
    r.no_raise()
    same(r, seen, costs, proba, eps)
    r.ensure('the quantile is the bound used', 'v' in ran and cmp_('==', ran['v'], v))


def same(r, seen, costs, proba, eps):
    ok = all(k in seen for k in ('scenario_costs', 'proba', 'epsilon'))
    r.ensure('the quantile is computed', ok)
    if not ok:
        return
    i = r.int('i', 0)
    a, b = r.seq(seen['scenario_costs']), r.seq(costs)
    r.ensure('of the single-scenario costs', b_and(cmp_('==', a.n, b.n), b_implies(cmp_('<', i, b.n), cmp_('==', a.at(i), b.at(i)))))
    a, b = r.nd(seen['proba']), r.nd(proba)
    r.ensure('with the scenario probabilities', b_and(cmp_('==', a.shape[0], b.shape[0]), b_implies(cmp_('<', i, b.shape[0]), cmp_('==', a.at(i), b.at(i)))))
    r.ensure('and the instance epsilon', cmp_('==', seen['epsilon'], eps))


def setup(r):
    """the adaptive method starts with the quantile of the single-scenario costs, if it has computed them, as upper bound"""
    seen = {}
    S = r.int('S', 1)
    costs = r.lst('single_costs', S, sort=RS)
    proba = r.vec('proba', S)
    eps = r.real('epsilon', 0)
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), proba=proba, epsilon=eps, nb_scenarios=S)
    v = r.real('quantile')

    def ahmed(it, a, k):
        seen.update(zip(('scenario_costs', 'proba', 'epsilon'), a))
        seen.update(k)
        return v
    part = r.lst('partition')

    def create(it, a, k):
        it.setattr(init, 'scenario_costs', costs)
        return part
    init = r.obj(r.cls('src.Initializer', 'Initializer'), create_first_partition=Builtin('create', create))
    pinst = r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'), load_partition=Builtin('load', lambda it, a, k: None))
    AP = r.cls('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')
    o = r.obj(AP, chance_instance=inst, chance_instance_part=pinst, initializer=init, initial_partition_type='cost', vUB=XR(True, False, Fraction(0)),
              upperbounder=r.obj(r.cls('src.UpperBounder', 'UpperBounder'), ahmed_et_al_bound=Builtin('ahmed', ahmed)))
    r.canary()
    r.call(o, '_setup_initial_partition')
    r.no_raise()
    same(r, seen, costs, proba, eps)
    r.ensure('the quantile is the initial upper bound', cmp_('==', r.fld(o, 'vUB'), v))


CONTRACTS = [('quantile', bound), ('_compute_big_m', milp), ('_setup_initial_partition', setup)]
