"""C12: song big-M values from the table of violations"""
from dv.spec import *
from contracts import C03, cells


def quantile(r, part=False):
    """_quantile_big_m: at least a value v, if every member that is satisfied has at least the value v and at most F are not"""
    N = r.int('subsets', 1)
    E, F, v = r.real('tolerance', 0), r.int('tolerated', 0), r.real('v')
    r.assume(b_and(cmp_('<=', F, E), cmp_('<', E, arith('+', F, 1)), cmp_('<', E, N)))
    eps = r.real('epsilon', 0)
    r.assume(cmp_('==', arith('*', eps, N), E))
    viol, sat = r.fn('violation', [I], RS), r.fn('satisfied', [I], B)
    r.assume(r.forall(N, lambda t: b_implies(sat(t), cmp_('>=', viol(t), v))))
    r.assume(cmp_('<=', r.count(N, lambda t: b_not(sat(t))), F))
    one = lambda n: r.it.new_nd(Nd((n,), lambda t: arith('/', 1, n), 'f'))
    if part:
        S = r.int('scenarios', 1)
        inst = r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'), epsilon_part=eps, nb_subsets=N, proba_part=one(N),
                     epsilon=r.real('epsilon_of_the_scenarios', 0), nb_scenarios=S, proba=one(S))
    else:
        inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), epsilon=eps, nb_scenarios=N, proba=one(N))
    f = r.obj(r.cls('src.BigMFinder', 'BigMFinder'), chance_instance=inst, nb_scenarios=N)
    arr = r.it.new_nd(Nd((N,), lambda t: viol(t), 'f'))
    r.canary()
    res = r.call(f, '_quantile_big_m', arr)
    r.no_raise()
    low = lambda t: ite(cmp_('<', viol(t), res), 1, 0)
    bad = lambda t: ite(cmp_('<', viol(t), v), 1, 0)
    r.perm_sum(N, bad)
    if r.it.perms:
        sig = r.it.perms[-1][1]
        q = r.obtain('position of the quantile', N, lambda q: b_and(cmp_('==', viol(sig(q)), res), cmp_('>=', q, F)))
        m = arith('+', q, 1)
        r.cut_sum(N, m, lambda k: bad(sig(k)))
        ones = lambda k: ite(cmp_('<', viol(sig(k)), v), 0, 1)
        r.lemma('number of positions', cmp_('==', r.sum(m, lambda k: 1), m))
        t = r.nonzero(m, ones)
        r.add_sums(m, lambda k: 1, lambda k: bad(sig(k)), ones)
        r.lemma('lower values are below the quantile', b_implies(cmp_('<', res, v), cmp_('==', r.sum(m, lambda k: bad(sig(k))), m)))
        r.lemma('not satisfied', cmp_('<=', r.sum(N, bad), F))
        r.lemma('at most F positions', cmp_('<=', r.sum(m, lambda k: bad(sig(k))), F))
    r.ensure('at least the value', cmp_('>=', res, v))



def subset_quantile(r):
    quantile(r, True)


class Table:
    """the table of violations and the contract of the quantile, for one point x and one value"""

    def __init__(self, r, I_, N, satisfied):
        self.r, self.I = r, I_
        self.x = r.fn('x', [I], RS)
        self.T = r.fn('entry', [I, I, I], RS)
        self.sat = r.fn('satisfied_scenario', [I], B)       # all constraints of the scenario hold at x
        self.V = r.fn('violation_at_x', [I, I], RS)
        s, t, i = (r.ctx.bound(v) for v in 'sti')
        r.assume(z3.ForAll([s, i], T(cmp_('==', self.V(s, i), arith('-', I_.lhs(s, i, self.x), I_.b(s, i)))), patterns=[self.V(s, i)]))
        rng = b_and(*[b_and(cmp_('<=', 0, a), cmp_('<', a, h)) for a, h in ((s, I_.S), (t, I_.S), (i, I_.m))])
        # contract of the table (violations.h)
        r.assume(z3.ForAll([s, t, i], T(b_implies(b_and(rng, self.sat(t)), cmp_('>=', self.T(s, t, i), self.V(s, i)))), patterns=[self.T(s, t, i)]))
        self.v = r.real('value')
        self.N, self.satisfied = N, satisfied
        r.it.ext['violations'] = lambda it, name: Builtin(name, self.table)
        for c in ('BigMFinder',):
            r.it.summaries[c + '._quantile_big_m'] = self.quantile

    def table(self, it, a, k):
        r, I_ = self.r, self.I
        r.ctx.pos = 'precondition of compute_all_violations'
        A, b = it.content(a[0]), it.content(a[1])
        s, i, j = r.int('s', 0), r.int('i', 0), r.int('j', 0)
        ok = b_and(len(A.shape) == 3, len(b.shape) == 2)
        r.ctx.oblige('one matrix and one vector per scenario', ok)
        r.ctx.oblige('dimensions of the data', b_and(*[cmp_('==', u, w) for u, w in zip(tuple(A.shape) + tuple(b.shape), (I_.S, I_.m, I_.n, I_.S, I_.m))]))
        rng = b_and(cmp_('<', s, I_.S), cmp_('<', i, I_.m), cmp_('<', j, I_.n))
        r.ctx.oblige('data of the scenarios', b_implies(rng, b_and(cmp_('==', A.at(s, i, j), I_.A(s, i, j)), cmp_('==', b.at(s, i), I_.b(s, i)))))
        return self.nd()

    def nd(self):
        return self.r.it.new_nd(Nd((self.I.S, self.I.S, self.I.m), lambda s, t, i: self.T(s, t, i), 'f'))

    def quantile(self, it, a, k):
        """contract of _quantile_big_m (above)"""
        r = self.r
        o, arr = a[0], (a + list(k.values()))[1]
        c = it.content(arr)
        r.ctx.pos = 'precondition of _quantile_big_m'
        r.ctx.oblige('one violation per scenario or subset', b_and(cmp_('==', c.shape[0], self.N), cmp_('==', it.getattr(o, 'nb_scenarios'), self.N)))
        f = r.ctx.fresh('quantile', RS)
        r.assume(b_implies(r.forall(self.N, lambda t: b_implies(self.satisfied(t), cmp_('>=', c.at(t), self.v))), cmp_('>=', f, self.v)))
        return f


def plain(r):
    I_ = Inst(r, nonneg=True)
    sat = lambda t: tab.sat(t)
    tab = Table(r, I_, I_.S, lambda t: tab.sat(t))
    f = r.it.call(r.cls('src.BigMFinder', 'BigMFinder'), [I_.ref], {})
    r.canary()
    s, i = r.int('s', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, I_.S), cmp_('<', i, I_.m)))
    r.assume(cmp_('==', tab.v, tab.V(s, i)))
    r.call(f, 'run_song_et_al_big_m', I_.ref)
    r.no_raise()
    q = r.seq(r.fld(f, 'bigM'))
    r.ensure('one vector per scenario', cmp_('==', q.n, I_.S))
    M = r.nd(r.call(f, 'get_vector_big_M', s))
    r.ensure('one value per constraint', b_and(len(M.shape) == 1, cmp_('==', M.shape[0], I_.m)))
    r.ensure('at least the violation at every point that satisfies all but the tolerated scenarios', cmp_(
        '>=', M.at(i), arith('-', I_.lhs(s, i, tab.x), I_.b(s, i))))


def partitioned(r, again=False):
    I_, P, K, size, part, plist = C03.setup(r, True)
    r.call(P, 'load_partition', K, plist)
    # a subset is satisfied if all its scenarios are
    sub = r.fn('satisfied_subset', [I], B)
    tab = Table(r, I_, K, lambda t: sub(t))
    c, k = r.ctx.bound('c'), r.ctx.bound('k')
    r.assume(z3.ForAll([c, k], T(b_implies(b_and(sub(c), cmp_('<=', 0, c), cmp_('<', c, K), cmp_('<=', 0, k), cmp_('<', k, size(c))), tab.sat(part(c, k)))),
                       patterns=[z3.MultiPattern(sub(c), part(c, k))]))
    F = r.cls('src.BigMFinder', 'BigMFinder')
    f = r.obj(F, chance_instance=P, nb_scenarios=r.int('old_nb', 1), song_violations=tab.nd() if again else None, bigM=r.it.new_list(Lit([])))
    r.canary()
    c, p, i = r.int('c', 0), r.int('p', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', c, K), cmp_('<', p, size(c)), cmp_('<', i, I_.m)))
    rows = arith('*', size(c), I_.m)
    k = arith('+', arith('*', p, I_.m), i)
    r.lemma('row inside the subset', b_and(cmp_('<', k, rows), cmp_('>=', k, 0)))
    r.lemma('row belongs to the p-th scenario', b_and(cmp_('==', arith('//', k, I_.m), p), cmp_('==', arith('%', k, I_.m), i)))
    r.assume(cmp_('==', tab.v, tab.V(part(c, p), i)))
    r.call(f, 'update_big_M', K, None, method='song', chance_instance=I_.ref, partition=plist)
    r.no_raise()
    q = r.seq(r.fld(f, 'bigM'))
    r.ensure('one vector per subset', cmp_('==', q.n, K))
    M = r.nd(r.call(f, 'get_vector_big_M', c))
    r.ensure('one value per constraint', b_and(len(M.shape) == 1, cmp_('==', M.shape[0], rows)))
    r.ensure('at least the violation at every point that satisfies all but the tolerated subsets', cmp_(
        '>=', M.at(k), arith('-', I_.lhs(part(c, p), i, tab.x), I_.b(part(c, p), i))))


def again(r):
    partitioned(r, True)



def reference(r):
    """the Python table, with the contract of solve_continuous_knapsack (C11): entry (s, t, i) is the smallest knapsack value
    over the constraints of scenario t"""
    I_ = Inst(r, nonneg=True)
    K = r.fn('knapsack_value', [I, I, I, I], RS)
    dA = I_.A(I_.S, I_.S, I_.S).decl()

    def knap(it, a, k):
        d = dict(zip(['revenue', 'obj_constant', 'weights', 'capacity'], a))
        d.update(k)
        rev, w = it.content(d['revenue']), it.content(d['weights'])
        j = r.ctx.fresh('j', I)
        t, u = T(rev.at(j)), T(w.at(j))
        for y in (t, u):
            if not (z3.is_app(y) and y.decl().eq(dA) and y.arg(2).eq(j)):
                raise Unsupported("data of the knapsack")
        s, i, tt, l = t.arg(0), t.arg(1), u.arg(0), u.arg(1)
        r.ctx.pos = 'precondition of solve_continuous_knapsack'
        r.ctx.oblige('data of the two constraints', b_and(cmp_('==', rev.shape[0], I_.n), cmp_('==', w.shape[0], I_.n), cmp_('==', d['obj_constant'], I_.b(s, i)),
                                                         cmp_('==', d['capacity'], I_.b(tt, l))))
        return K(s, i, tt, l)
    r.it.summaries['song_big_m.solve_continuous_knapsack'] = knap
    s, t, i = r.int('s', 0), r.int('t', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, I_.S), cmp_('<', t, I_.S), cmp_('<', i, I_.m)))
    r.canary()
    f = I_.fields
    res = r.nd(r.it.call(r.func('src.song_big_m', 'compute_all_violations'), [f['matrices_A'], f['vectors_b']], {}))
    r.no_raise()
    r.ensure('shape of the table', b_and(len(res.shape) == 3, *[cmp_('==', u, v) for u, v in zip(res.shape, (I_.S, I_.S, I_.m))]))
    v = res.at(s, t, i)
    l = r.int('l', 0)
    r.assume(cmp_('<', l, I_.m))
    r.ensure('at most the value of every constraint', cmp_('<=', v, K(s, i, t, l)))
    r.ensure('the value of one of them', r.exists(I_.m, lambda l: cmp_('==', v, K(s, i, t, l))))


CONTRACTS = [('compute_all_violations, reference', reference), ('_quantile_big_m', quantile), ('_quantile_big_m, subsets', subset_quantile), ('run_song_et_al_big_m, scenarios', plain), ('update_big_M, song, subsets', partitioned),
             ('update_big_M, song, later partitions', again)] + cells.CONTRACTS
