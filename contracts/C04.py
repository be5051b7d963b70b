"""C04: the initial partitions"""
from dv.spec import *


def initializer(r, S, costs=None):
    I_ = r.cls('src.Initializer', 'Initializer')
    ev = r.obj(r.cls('src.Evaluator', 'Evaluator'), get_all_single_scenario_costs=Builtin('costs', lambda it, a, k: costs))
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), nb_scenarios=S)
    return r.obj(I_, chance_instance=inst, chance_instance_part=None, nb_scenarios=S, evaluator=ev)


def valid(r, out, S, n):
    """exactly n subsets, none empty, sizes differing by at most one, every scenario exactly once"""
    P = r.seq(out)
    r.ensure('number of subsets', cmp_('==', P.n, n))
    i, j = r.int('i', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', i, n), cmp_('<', j, n)))
    a, b = r.seq(P.at(i)), r.seq(P.at(j))
    r.ensure('no empty subset', cmp_('>=', a.n, 1))
    r.ensure('sizes differ by at most one', cmp_('<=', arith('-', a.n, b.n), 1))
    q, t = r.int('q', 0), r.int('t', 0)
    r.assume(b_and(cmp_('<', q, a.n), cmp_('<', t, b.n)))
    x, y = a.at(q), b.at(t)
    r.ensure('scenarios of the instance', b_and(cmp_('<=', 0, x), cmp_('<', x, S)))
    r.ensure('no scenario twice', b_implies(cmp_('==', x, y), b_and(cmp_('==', i, j), cmp_('==', q, t))))
    return P, (i, q, x), (j, t, y)


def cover(r, P, S, n, inv):
    """every scenario occurs: at the position its rank gives"""
    s = r.int('s', 0)
    r.assume(cmp_('<', s, S))
    k = inv(s)
    i, q = DEALROW(IT(k), IT(n)), DEALIDX(IT(k), IT(n))
    r.lemma('position', b_and(cmp_('<=', 0, i), cmp_('<', i, n), cmp_('<=', 0, q), cmp_('<', q, r.seq(P.at(i)).n)))
    r.ensure('every scenario occurs', cmp_('==', r.seq(P.at(i)).at(q), s))


def random_partition(r):
    S, n = r.int('S', 1), r.int('n', 1)
    r.assume(cmp_('<=', n, S))
    o = initializer(r, S)
    r.canary()
    out = r.call(o, 'create_first_partition', n, 'random')
    r.no_raise()
    P, a, b = valid(r, out, S, n)
    cover(r, P, S, n, r.it.perms[-1][2])


def cost_partition(r):
    S, n = r.int('S', 1), r.int('n', 1)
    r.assume(cmp_('<=', n, S))
    c = r.fn('cost', [I], RS)
    o = initializer(r, S, r.it.new_list(Fn(S, lambda k: c(k))))
    r.canary()
    out = r.call(o, 'create_first_partition', n, partition_type='cost')
    r.no_raise()
    P, (i, q, x), (j, t, y) = valid(r, out, S, n)
    rank = lambda i, q: step_pos(i, q, n)
    r.ensure('dealt out in decreasing order of cost', b_implies(cmp_('<', rank(i, q), rank(j, t)), cmp_('>=', c(x), c(y))))
    cover(r, P, S, n, r.it.perms[-1][2])
    e = r.nd(r.fld(o, 'scenario_costs'))
    k = r.int('k', 0)
    r.ensure('exposed costs are in scenario order', b_and(cmp_('==', e.shape[0], S), b_implies(cmp_('<', k, S), cmp_('==', e.at(k), c(k)))))


def refused(r):
    S, n = r.int('S', 1), r.int('n', 1)
    r.assume(cmp_('<', S, n))
    o = initializer(r, S, r.lst('costs', S, sort=RS))
    r.it.assert_mode = 'raise'
    r.canary()
    for ty in ('random', 'cost'):
        g = len(r.ctx.guard)
        try:
            r.call(o, 'create_first_partition', n, ty)
        except DeadPath:
            del r.ctx.guard[g:]
            continue
        r.ensure('more subsets than scenarios are refused (%s)' % ty, False)


def single_costs(r):
    """the k-th single-scenario cost is the cost of scenario k"""
    S = r.int('S', 1)
    f = r.fn('cost_of', [I], RS)
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), nb_scenarios=S)

    def subset_cost(it, a, k):
        v = (list(a)[1:] if isinstance(a[0], Ref) and a[0].kind == 'obj' else list(a)) + list(k.values())
        return (f(scenario_of(r, v[0])), r.vec('sol', 3))
    r.it.summaries['Evaluator.subset_cost'] = subset_cost
    o = r.obj(r.cls('src.Evaluator', 'Evaluator'), chance_instance=inst)
    r.canary()
    out = r.call(o, 'get_all_single_scenario_costs')
    r.no_raise()
    c = r.seq(out)
    k = r.int('k', 0)
    r.ensure('one cost per scenario', cmp_('==', c.n, S))
    r.ensure('in scenario order', b_implies(cmp_('<', k, S), cmp_('==', c.at(k), f(k))))


def scenario_of(r, v):
    """a scenario may be given as a number or as a list of one"""
    if is_numlike(v):
        return v
    s = r.seq(v)
    r.ctx.oblige('a single scenario', cmp_('==', s.n, 1))
    return s.at(0)


CONTRACTS = [('get_all_single_scenario_costs', single_costs), ('random', random_partition), ('cost', cost_partition), ('refused', refused)]
