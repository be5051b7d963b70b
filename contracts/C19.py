"""C19: split model, memory and choice of the cost refiner"""
from dv.spec import *
from dv import grb, hoare
from dv.lib import member
from contracts.C10 import View


def members(r, name, lst):
    """predicate: s is an element of the list (a name for it)"""
    q = r.seq(lst)
    m = r.fn(name, [I], B)
    s = r.ctx.bound('s')
    r.assume(z3.ForAll([s], m(s) == T(member(r.ctx, q, s)), patterns=[m(s)]))
    k = r.ctx.bound('k')
    n, e, c = (q.src_n, q.val(k), q.cond(k)) if isinstance(q, Filter) else (q.n, q.at(k), True)
    r.assume(z3.ForAll([k], T(b_implies(b_and(cmp_('<=', 0, k), cmp_('<', k, n), c), m(e))), patterns=[T(e)]))
    return m


def memory(r):
    """two evaluations, with anything in between: a split found in memory was stored by an earlier one"""
    C = r.cls('src.refiner.CostRefiner', 'CostRefiner')
    made, viol = r.fn('made_for', [I, I], B), r.fn('made_for_violated', [I, I], B)
    s = r.ctx.bound('s')

    def split(it, a, k):
        a = list(a) + list(k.values())
        ms, mi = members(r, 'scenario', a[-2]), members(r, 'violated', a[-1])
        out = []
        for nm in ('cost', 'left', 'right'):
            t = r.int(nm)
            r.assume(z3.ForAll([s], T(made(t, s)) == ms(s), patterns=[T(made(t, s))]))
            r.assume(z3.ForAll([s], T(viol(t, s)) == mi(s), patterns=[T(viol(t, s))]))
            out.append(t)
        return tuple(out)
    r.it.summaries['CostRefiner.accurate_obj_split'] = split
    o = r.it.call(C, [None], {'use_acc_obj': True})

    def state(i):
        K = r.int('nb_subsets%d' % i, 1)
        size, part = r.fn('size%d' % i, [I], I), r.fn('part%d' % i, [I, I], I)
        c = r.ctx.bound('c')
        r.assume(z3.ForAll([c], size(c) >= 1, patterns=[size(c)]))
        it = r.it
        it.setattr(o, 'partition', it.new_list(Fn(K, lambda q: Frozen(Fn(size(q), lambda j, q=q: part(q, j))))))
        it.setattr(o, 'infeasible_scenarios', r.lst('violated%d' % i))
        for f in ('post_split_costs', 'left_subsets', 'right_subsets'):
            it.setattr(o, f, it.new('dict', DLit({})))
        it.setattr(o, 'count', r.int('count%d' % i, 0))
        c = r.int('c%d' % i, 0)
        r.assume(cmp_('<', c, K))
        return c, size, part
    c, _, _ = state(1)
    r.call(o, '_evaluate_single_accurate_split', c)
    c, size, part = state(2)
    r.canary()
    r.call(o, '_evaluate_single_accurate_split', c)
    r.no_raise()
    inf = r.seq(r.fld(o, 'infeasible_scenarios'))
    s = r.int('s')
    k1, k2 = r.int('k1', 0), r.int('k2', 0)
    ins = r.exists(size(c), lambda k: cmp_('==', part(c, k), s))
    isv = r.exists(inf.n, lambda k: cmp_('==', inf.at(k), s))
    for f, what in (('post_split_costs', 'cost'), ('left_subsets', 'left side'), ('right_subsets', 'right side')):
        d = r.it.content(r.fld(o, f))
        r.ensure('%s of the subset' % what, d.has(c))
        t = d.get(c)
        r.ensure('%s computed for the same scenarios' % what, T(made(t, s)) == T(ins))
        r.ensure('%s computed for violated scenarios of the subset' % what, b_implies(viol(t, s), ins))
        r.ensure('%s computed for violated scenarios' % what, b_implies(viol(t, s), isv))
        r.ensure('%s computed for all violated scenarios' % what, b_implies(b_and(cmp_('<', k1, size(c)), cmp_('<', k2, inf.n), cmp_('==', part(c, k1), inf.at(k2))),
                                                                             viol(t, part(c, k1))))



class Split:
    """a built split model for arbitrary lists of scenarios and violated scenarios"""

    def __init__(self, r):
        self.r = r
        V = self.V = View(r)
        N = self.N = r.int('nb_split', 2)
        sc = self.sc = r.fn('scenario', [I], I)
        k = r.ctx.bound('k')
        r.assume(z3.ForAll([k], z3.And(sc(k) >= 0, sc(k) < V.S), patterns=[sc(k)]))
        self.slist = r.lst('scenarios', N, elem=sc)
        self.inf = r.lst('violated')
        self.isv = members(r, 'is_violated', self.inf)
        self.w = grb.point(r.it)
        self.o = None

    def build(self):
        r = self.r
        self.o = r.it.call(r.cls('src.optim.AccObjModel', 'AccObjModel'), [self.V.ref, self.slist, self.inf], {})
        r.canary()
        r.call(self.o, 'build')
        r.no_raise()
        return self

    def group(self, name, s=None, at=None):
        r = self.r
        pt, w = grb.g_of(r.it).pt, self.w if at is None else at
        if name not in r.it.content(self.o).fields:
            raise Unsupported("variables of the split model")
        d = r.it.content(r.fld(self.o, name))
        if s is not None:
            v = d.get(s)
            d = v.content if isinstance(v, Frozen) else r.it.content(v)
        return lambda j: vsubst(d.get(j), [(pt, w)])

    def alpha(self, at=None):
        return vsubst(self.r.it.content(self.o).fields['var_alpha'], [(grb.g_of(self.r.it).pt, self.w if at is None else at)])

    def spec(self):
        """the clauses of the statement, per side"""
        r, V, N = self.r, self.V, self.N
        out = []
        alpha = self.alpha()
        pi = {}
        for side in ('left', 'right'):
            p = pi[side] = self.group(side + '_var_pi')
            lam = self.group(side + '_var_lambda')
            eta = lambda s, i, side=side: self.group(side + '_var_eta', s)(i)
            out.append(('assignment is binary, ' + side, r.forall(N, lambda s: b_or(cmp_('==', p(s), 0), cmp_('==', p(s), 1)))))
            out.append(('multipliers of the box, ' + side, r.forall(arith('*', 2, V.n), lambda k: cmp_('>=', lam(k), 0))))
            m = lambda s: z3.If(IT(V.m(self.sc(s))) >= 0, IT(V.m(self.sc(s))), 0)
            out.append(('multipliers of the constraints, ' + side, r.forall(N, lambda s: r.forall(m(s), lambda i: cmp_('>=', eta(s, i), 0)))))
            out.append(('unassigned scenarios contribute nothing, ' + side, r.forall(N, lambda s: b_implies(cmp_('==', p(s), 0), r.forall(
                m(s), lambda i: cmp_('==', eta(s, i), 0))))))
            bx = lambda k: arith('*', ite(cmp_('<', k, V.n), 0, 1), lam(k))
            r.split_sum(arith('+', V.n, V.n), V.n, bx)
            r.nonzero(V.n, bx)
            box = r.sum(V.n, lambda k: lam(arith('+', V.n, k)))
            rhs = r.sum(N, lambda s: r.sum(m(s), lambda i: arith('*', V.b(self.sc(s), i), eta(s, i))))
            out.append(('at least the dual bound, ' + side, cmp_('>=', alpha, arith('+', box, rhs))))
            out.append(('dual constraints, ' + side, r.forall(V.n, lambda j: cmp_('==', arith('+', arith('-', lam(arith('+', j, V.n)), lam(j)), r.sum(
                N, lambda s: r.sum(m(s), lambda i: arith('*', V.A(self.sc(s), i, j), eta(s, i))))), V.c(j)))))
            cnt = r.sum(N, lambda s: ite(self.isv(self.sc(s)), p(s), 0))
            out.append(('a violated scenario, ' + side, cmp_('>=', cnt, 1)))
        out.append(('every scenario on exactly one side', r.forall(N, lambda s: cmp_('==', arith('+', pi['left'](s), pi['right'](s)), 1))))
        return out


def model(r):
    M = Split(r).build()
    g = r.fld(M.o, 'grb_model')
    cl = M.spec()
    acc = grb.accept_at(r.it, g, M.w)
    for nm, f in cl:
        r.ensure('accepted points: ' + nm, b_implies(acc, f))
    r.ensure('every such point is accepted', b_implies(b_and(*[f for _, f in cl]), acc))
    r.ensure('the objective is the bound', cmp_('==', grb.obj_at(r.it, g, M.w), M.alpha()))
    r.ensure('the bound is minimised', cmp_('==', grb.get(r.it, g, 'sense'), 1))


def solved(r):
    """accurate_obj_split: cost and lists of a solution"""
    M = Split(r)
    made = []

    def make(it, a, k):
        del it.summaries['AccObjModel']
        made.append((it.call(r.cls('src.optim.AccObjModel', 'AccObjModel'), list(a), k), list(a) + list(k.values())))
        it.summaries['AccObjModel'] = make
        return made[-1][0]
    r.it.summaries['AccObjModel'] = make
    o = r.it.call(r.cls('src.refiner.CostRefiner', 'CostRefiner'), [M.V.ref], {'use_acc_obj': True})
    r.canary()
    r.it.top_raises = []
    cost, left, right = r.call(o, 'accurate_obj_split', M.slist, M.inf)
    if len(made) != 1:
        raise Unsupported("split models made")
    M.o, args = made[0]
    sl, vl = r.seq(args[1]), r.seq(args[2])
    k = r.int('k', 0)
    r.ensure('built for the scenarios given', b_and(cmp_('==', sl.n, M.N), b_implies(cmp_('<', k, M.N), cmp_('==', sl.at(k), M.sc(k)))))
    iv = r.seq(M.inf)
    r.ensure('built for the violated scenarios given', b_and(cmp_('==', vl.n, iv.n), b_implies(cmp_('<', k, iv.n), cmp_('==', vl.at(k), iv.at(k)))))
    g = r.fld(M.o, 'grb_model')
    Q = grb.get(r.it, g, 'sol')
    r.ensure('cost of the point read', cmp_('==', cost, M.alpha(Q)))
    lp, rp = M.group('left_var_pi', at=Q), M.group('right_var_pi', at=Q)
    lf, rt = r.seq(left), r.seq(right)
    inr = b_and(cmp_('<', k, M.N))
    s = r.int('s')
    for nm, q, p in (('left', lf, lp), ('right', rt, rp)):
        r.ensure('scenarios assigned to the %s side are in the list' % nm, b_implies(b_and(inr, cmp_('==', p(k), 1)), member(r.ctx, q, M.sc(k))))
        r.ensure('scenarios in the %s list are assigned to it' % nm, b_implies(member(r.ctx, q, s), r.exists(M.N, lambda k: b_and(
            cmp_('==', M.sc(k), s), cmp_('==', p(k), 1)))))
    r.ensure('no scenario is lost', cmp_('==', arith('+', lf.n, rt.n), M.N))
    st = grb.get(r.it, g, 'status')
    r.ensure('no better split', b_implies(b_and(cmp_('==', st, 2), grb.accept_at(r.it, g, M.w)), cmp_('<=', cost, M.alpha())))


def choice(r):
    """the subset split next, for arbitrary costs of the candidate subsets"""
    o = r.it.call(r.cls('src.refiner.CostRefiner', 'CostRefiner'), [None], {'use_acc_obj': True})
    it = r.it
    K = r.int('nb_subsets', 1)
    n = r.int('nb_candidates', 1)
    key, cost = r.fn('candidate', [I], I), r.fn('cost', [I], RS)
    pos = r.fn('position', [I], I)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(key(k) >= 0, key(k) < K, pos(key(k)) == k)), patterns=[key(k)]))
    has = lambda c: b_and(cmp_('<=', 0, pos(IT(c))), cmp_('<', pos(IT(c)), n), cmp_('==', key(pos(IT(c))), c))
    ref = it.new('dict', Dct(has, lambda c: cost(IT(c)), Fn(n, key)))
    it.setattr(o, 'post_split_costs', ref)
    L, Rt = r.fn('left_of', [I, I], I), r.fn('right_of', [I, I], I)
    ln, rn = r.fn('left_size', [I], I), r.fn('right_size', [I], I)
    c = r.ctx.bound('c')
    r.assume(z3.ForAll([c], z3.And(ln(c) >= 1, rn(c) >= 1, Rt(c, 0) == c), patterns=[ln(c), rn(c)]))
    side = lambda f, m: it.new('dict', Dct(has, lambda c: Frozen(Fn(m(IT(c)), lambda j: f(IT(c), IT(j)))), Fn(n, key)))
    it.setattr(o, 'left_subsets', side(L, ln))
    it.setattr(o, 'right_subsets', side(Rt, rn))
    size, part = r.fn('size', [I], I), r.fn('part', [I, I], I)
    r.assume(z3.ForAll([c], size(c) >= 1, patterns=[size(c)]))
    it.setattr(o, 'partition', it.new_list(Fn(K, lambda q: Frozen(Fn(size(IT(q)), lambda j: part(IT(q), IT(j)))))))
    it.setattr(o, 'infeasible_scenarios', r.lst('violated'))
    vub = r.real('vUB')
    it.setattr(o, 'vUB', vub)
    it.setattr(o, 'mu_counter', r.int('mu_counter', 0))
    it.setattr(o, 'splitted_subsets', r.lst('splitted'))
    it.setattr(o, 'new_subsets', r.lst('new'))
    cnt = r.fn('nb_violated', [I], I)

    def count(it, a, kw):
        return it.new_list(Fn(it.content(a[-2]).n, lambda q: cnt(IT(q))))
    for cl in ('CostRefiner', 'Refiner'):
        it.summaries[cl + '._count_infeasible_scenarios'] = count
    again = r.fn('cost_after', [I], RS)

    def evaluate(it, a, kw):
        c = (list(a) + list(kw.values()))[-1]
        it.lib.setitem(it, it.getattr(o, 'post_split_costs'), c, again(IT(c)))
    it.summaries['CostRefiner._evaluate_single_accurate_split'] = evaluate
    r.canary()
    r.call(o, '_perform_accurate_split')
    r.no_raise()
    P = it.content(r.fld(o, 'partition'))
    r.ensure('one more subset', cmp_('==', P.n, arith('+', K, 1)))
    # the subset chosen is read from the new subset: its right side is marked with it
    last = r.it.content(P.at(K))
    w = last.at(0)
    j, q = r.int('any_position', 0), r.int('any_candidate', 0)
    inq = cmp_('<', q, n)
    cw, cq = cost(IT(w)), cost(key(q))
    r.ensure('a candidate is split', has(w))
    eq = lambda a, ln_, f: b_and(cmp_('==', a.n, ln_), b_implies(cmp_('<', j, a.n), cmp_('==', a.at(j), f)))
    r.ensure('right side is new', eq(last, rn(IT(w)), Rt(IT(w), j)))
    r.ensure('left side stays', eq(it.content(P.at(w)), ln(IT(w)), L(IT(w), j)))
    c = r.int('other', 0)
    r.ensure('other subsets stay', b_implies(b_and(cmp_('<', c, K), b_not(cmp_('==', c, w))), eq(it.content(P.at(c)), size(IT(c)), part(IT(c), j))))
    D = it.content(r.fld(o, 'post_split_costs'))
    for nm, x in (('split subset', w), ('new subset', K)):
        r.ensure('%s is a candidate with two violated scenarios' % nm, D.has(x) == T(cmp_('>=', cnt(IT(x)), 2)) if is_sym(D.has(x)) else False)
        r.ensure('%s is evaluated again' % nm, b_implies(cmp_('>=', cnt(IT(x)), 2), cmp_('==', D.get(x), again(IT(x)))))
    r.ensure('other candidates stay', b_implies(b_and(cmp_('<', c, K), b_not(cmp_('==', c, w))), b_and(
        T(D.has(c)) == T(has(c)), b_implies(has(c), cmp_('==', D.get(c), cost(c))))))
    r.ensure('largest cost not above the upper bound', b_implies(b_and(inq, cmp_('<=', cq, vub)), b_and(cmp_('<=', cw, vub), cmp_('>=', cw, cq))))
    r.ensure('smallest cost if all are above', b_implies(b_and(inq, cmp_('>', cw, vub)), cmp_('<=', cw, cq)))


def candidates(r):
    """every listed subset with two violated scenarios is evaluated, and no other"""
    it = r.it
    o = it.call(r.cls('src.refiner.CostRefiner', 'CostRefiner'), [None], {'use_acc_obj': True})
    K = r.int('nb_subsets', 1)
    n = r.int('nb_sorted', 0)
    srt = r.fn('sorted', [I], I)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(srt(k) >= 0, srt(k) < K)), patterns=[srt(k)]))
    size, part = r.fn('size', [I], I), r.fn('part', [I, I], I)
    it.setattr(o, 'partition', it.new_list(Fn(K, lambda q: Frozen(Fn(size(IT(q)), lambda j: part(IT(q), IT(j)))))))
    it.setattr(o, 'infeasible_scenarios', r.lst('violated'))
    cnt, cost = r.fn('nb_violated', [I], I), r.fn('cost', [I], RS)
    for cl in ('CostRefiner', 'Refiner'):
        it.summaries[cl + '._count_infeasible_scenarios'] = lambda it, a, kw: it.new_list(Fn(it.content(a[-2]).n, lambda q: cnt(IT(q))))

    def evaluate(it, a, kw):
        c = (list(a) + list(kw.values()))[-1]
        it.lib.setitem(it, it.getattr(o, 'post_split_costs'), c, cost(IT(c)))
    it.summaries['CostRefiner._evaluate_single_accurate_split'] = evaluate
    r.canary()
    r.call(o, '_evaluate_accurate_splits', it.new_list(Fn(n, srt)))
    r.no_raise()
    D = it.content(r.fld(o, 'post_split_costs'))
    c, q = r.int('c', 0), r.int('q', 0)
    r.ensure('evaluated subsets have two violated scenarios', b_implies(D.has(c), cmp_('>=', cnt(c), 2)))
    r.ensure('listed subsets with two violated scenarios are evaluated', b_implies(b_and(cmp_('<', q, n), cmp_('>=', cnt(srt(q)), 2)), D.has(srt(q))))
    r.ensure('cost of the subset', b_implies(D.has(c), cmp_('==', D.get(c), cost(c))))


CONTRACTS = [('_evaluate_accurate_splits', candidates), ('_perform_accurate_split', choice), ('AccObjModel.build', model), ('accurate_obj_split', solved), ('_evaluate_single_accurate_split', memory)]
