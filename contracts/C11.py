"""C11: naive and Belotti big-M values"""
import ast
from dv.spec import *
from dv import hoare, grb
from contracts.C10 import View, arg


class Sorted:
    """the items with positive weight, in the order of the code's argsort: position q is item at(q)"""

    def __init__(self, r, n):
        ctx = r.ctx
        self.K, self.sig, self.inv = r.it.perms[-1]
        k = T(self.K)
        d = ctx.sumdefs.get(k.decl().name()) if z3.is_app(k) else None
        if d is None or getattr(d, 'pos', None) is None:
            raise Unsupported("items of the knapsack are not selected by a mask")
        args = k.children()
        self.n, self.pos = args[0], (lambda p: d.pos(IT(p), *args))
        self.sel = lambda j: cmp_('==', d.inst(IT(j), args[1:]), 1)
        self.cnt = lambda j: d.f(IT(j), *args[1:])
        self.at = lambda q: self.pos(self.sig(q))


class Greedy(hoare.Spec):
    def __init__(self, r, n, x, A, c, cap):
        self.r, self.n, self.x, self.A, self.c, self.cap = r, n, x, A, c, cap
        self.items = None
        self.ks = []

    def roles(self, it, stmt):
        env = it.st.env
        mod = [x.id for s in stmt.body for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
        self.role = {}
        for v in dict.fromkeys(mod):
            if v not in env or not is_numlike(env[v]):
                continue
            e = env[v]
            if not is_sym(e) and e == 0:
                self.role['weight'] = v
            elif is_sym(e) and e.eq(self.cap):
                self.role['left'] = v
            else:
                self.role['profit'] = v
                self.p0 = e
        if 'profit' not in self.role or len(self.role) != 2:
            raise Unsupported("variables of the greedy loop")

    def state(self, it):
        env = it.st.env
        w = env[self.role['weight']] if 'weight' in self.role else arith('-', self.cap, env[self.role['left']])
        return arith('-', env[self.role['profit']], self.p0), w

    def setup(self):
        """marginal values; names for revenue, weight and point in the order of the items"""
        r = self.r
        self.v_, self.r_, self.w_, self.x_ = (r.fn(nm, [I], RS) for nm in ('marginal', 'revenue_of', 'weight_of', 'part_of'))
        q = r.ctx.bound('q')
        for f, g in ((self.r_, self.A), (self.w_, self.c), (self.x_, self.x)):
            r.assume(z3.ForAll([q], f(q) == g(self.s.at(q)), patterns=[f(q)]))
            core.NONNEG_DECLS.add(f(q).decl().name())
        r.assume(z3.ForAll([q], T(cmp_('==', self.v_(q), arith('/', self.A(self.s.at(q)), self.c(self.s.at(q))))), patterns=[self.v_(q)]))
        r.lemma('items of the order', z3.ForAll([q], T(b_implies(b_and(cmp_('<=', 0, q), cmp_('<', q, self.s.K)), b_and(
            cmp_('>', self.w_(q), 0), cmp_('>=', self.v_(q), 0), cmp_('==', arith('*', self.v_(q), self.w_(q)), self.r_(q)), cmp_('>=', self.r_(q), 0),
            cmp_('>=', self.x_(q), 0), cmp_('<=', self.x_(q), 1)))), patterns=[self.v_(q)]))
        p = r.ctx.bound('p')
        r.lemma('marginal values do not increase', z3.ForAll([p, q], T(b_implies(b_and(cmp_('<=', 0, p), cmp_('<', p, q), cmp_('<', q, self.s.K)), cmp_(
            '>=', self.v_(p), self.v_(q)))), patterns=[z3.MultiPattern(self.v_(p), self.v_(q))]))

    def R(self, k):
        return self.r.sum(k, lambda q: arith('*', self.r_(q), self.x_(q)))

    def X(self, k):
        return self.r.sum(k, lambda q: arith('*', self.w_(q), self.x_(q)))

    def inv(self, it, k):
        p, w = self.state(it)
        self.ks.append(k)
        last = z3.simplify(IT(arith('-', k, 1)))
        v = self.v_(last)
        zero = cmp_('==', k, 0)
        return [('no item yet', b_implies(zero, b_and(cmp_('==', p, 0), cmp_('==', w, 0)))),
                ('weight', b_and(cmp_('>=', w, 0), b_or(zero, cmp_('<=', w, self.cap)))),
                ('at least as good as the items seen so far at the marginal value', b_implies(b_not(zero), cmp_(
                    '>=', arith('-', p, self.R(k)), arith('*', v, arith('-', w, self.X(k)))))),
                ('every item seen so far fits, the knapsack is full, or items are worthless', b_or(zero, cmp_('>=', w, self.X(k)), cmp_('==', w, self.cap), cmp_('==', v, 0)))]


def items(r, Spec, point):
    """call of the knapsack function with arbitrary nonnegative revenues and weights"""
    n = r.int('n', 1)
    A, c = r.fn('revenue', [I], RS), r.fn('weight', [I], RS)
    x = r.fn('x', [I], RS)
    j = r.ctx.bound('j')
    for f in (A, c, x):
        r.assume(z3.ForAll([j], f(j) >= 0, patterns=[f(j)]))
        core.NONNEG_DECLS.add(f(j).decl().name())
    r.assume(z3.ForAll([j], x(j) <= 1, patterns=[x(j)]))
    b, cap = r.real('constant'), r.real('capacity')
    f = r.func('src.song_big_m', 'solve_continuous_knapsack')
    nd = lambda g: r.it.new_nd(Nd((n,), lambda j: g(j), 'f'))
    sp = Spec(r, n, x, A, c, cap)

    def spec(it, s, seq):
        if not it.perms or seq is None:
            return None
        sp.s = Sorted(r, n)
        sp.roles(it, s)
        sp.setup()
        return sp
    r.it.loop_spec = spec
    if not point:
        r.assume(cap >= 0)
    r.canary()
    res = r.it.call(f, [nd(A), b, nd(c), cap], {})
    r.no_raise()
    ks = []
    for k in sp.ks:
        if is_sym(k) and z3.is_const(k) and not z3.is_int_value(k) and not any(k.eq(y) for y in ks):
            ks.append(k)
    zpart = r.sum(n, lambda j: ite(sp.s.sel(j), 0, A(j)))
    r.masked_sums(lambda j: A(j))
    r.lemma('items without weight', cmp_('==', sp.p0, arith('-', zpart, b)))
    return n, A, c, x, b, cap, sp, res, ks, zpart


def knapsack(r):
    n, A, c, x, b, cap, sp, res, ks, zpart = items(r, Greedy, True)
    S = sp.s
    r.assume(cmp_('<=', r.sum(n, lambda j: arith('*', c(j), x(j))), cap))
    nz = r.sum(n, lambda j: ite(S.sel(j), arith('*', A(j), x(j)), 0))
    total = r.sum(n, lambda j: arith('*', A(j), x(j)))
    r.masked_sums(lambda j: arith('*', A(j), x(j)))
    r.masked_sums(lambda j: arith('*', c(j), x(j)))
    K = S.K
    for g in (A, c):
        r.perm_sum(K, lambda q: arith('*', g(S.pos(q)), x(S.pos(q))))
    for nm, g, F in (('revenue', A, sp.R), ('weight', c, sp.X)):
        r.lemma('%s in the order of the items' % nm, cmp_('==', F(K), r.sum(K, lambda q: arith('*', g(S.at(q)), x(S.at(q))))))
        r.lemma('%s in any order' % nm, cmp_('==', F(K), r.sum(K, lambda q: arith('*', g(S.pos(q)), x(S.pos(q))))))
    r.lemma('weighted items', cmp_('==', sp.R(K), nz))
    wsel = r.sum(n, lambda j: ite(S.sel(j), arith('*', c(j), x(j)), 0))
    r.lemma('weight of the items with weight', cmp_('==', sp.X(K), wsel))
    r.lemma('weight of the point', cmp_('<=', wsel, cap))
    r.add_sums(n, lambda j: arith('*', A(j), x(j)), lambda j: ite(S.sel(j), 0, arith('*', A(j), x(j))), lambda j: ite(S.sel(j), arith('*', A(j), x(j)), 0))
    r.lemma('value of the point', cmp_('<=', total, arith('+', zpart, sp.R(K))))
    rx, wx = (lambda q: arith('*', sp.r_(q), sp.x_(q))), (lambda q: arith('*', sp.w_(q), sp.x_(q)))
    t = r.nonzero(K, rx)
    r.term_le(K, wx, t)
    r.lemma('no capacity, no value', b_implies(cmp_('<=', cap, 0), cmp_('<=', sp.R(K), 0)))
    for k in ks:
        v = sp.v_(arith('-', k, 1))
        rest = arith('-', K, k)
        r.split_sum(K, k, rx)
        r.split_sum(K, k, wx)
        r.lemma('marginal value', b_implies(b_and(cmp_('<=', 1, k), cmp_('<=', k, K)), cmp_('>=', v, 0)))
        t = r.scale_le(rest, lambda q: rx(arith('+', k, q)), v, lambda q: wx(arith('+', k, q)))
        u = arith('+', k, t)
        r.lemma('an item after the last one', b_implies(b_and(cmp_('<=', 1, k), cmp_('<=', 0, t), cmp_('<', t, rest)), b_and(
            cmp_('>=', v, sp.v_(u)), cmp_('==', arith('*', sp.v_(u), sp.w_(u)), sp.r_(u)), cmp_('>', sp.w_(u), 0), cmp_('>=', sp.x_(u), 0))))
        r.lemma('an item after the last one, value', b_implies(b_and(cmp_('<=', 1, k), cmp_('<=', 0, t), cmp_('<', t, rest)), b_and(
            cmp_('<=', sp.r_(u), arith('*', v, sp.w_(u))), cmp_('<=', rx(u), arith('*', v, wx(u))))))
        r.lemma('items after the last one', b_implies(b_and(cmp_('<=', 1, k), cmp_('<=', k, K)), cmp_(
            '<=', r.sum(rest, lambda q: rx(arith('+', k, q))), arith('*', v, r.sum(rest, lambda q: wx(arith('+', k, q)))))))
        r.lemma('value of the weighted items', b_implies(b_and(cmp_('<=', 1, k), cmp_('<=', k, K)), cmp_(
            '<=', sp.R(K), arith('+', sp.R(k), arith('*', v, arith('-', sp.X(K), sp.X(k)))))))
        r.lemma('value of the weighted items for the capacity', b_implies(b_and(cmp_('<=', 1, k), cmp_('<=', k, K)), cmp_(
            '<=', sp.R(K), arith('+', sp.R(k), arith('*', v, arith('-', cap, sp.X(k)))))))
    r.lemma('at least the value of the weighted items', cmp_('>=', arith('-', res, sp.p0), sp.R(K)))
    r.ensure('at least the value of every point within the capacity', cmp_('>=', res, arith('-', total, b)))


class Attained(Greedy):
    """what the loop has put into the knapsack"""

    def W(self, k):
        return self.r.sum(k, lambda q: ite(cmp_('>', self.r_(q), 0), self.w_(q), 0))

    def P(self, k):
        return self.r.sum(k, lambda q: self.r_(q))

    def whole(self, p, k):
        """the items before k, as far as they are worth something"""
        return b_and(cmp_('==', p, self.P(k)), cmp_('<=', self.W(k), self.cap))

    def partly(self, p, k):
        """the items before k - 1 and a part of item k - 1"""
        q = z3.simplify(IT(arith('-', k, 1)))
        return b_and(cmp_('<=', 1, k), cmp_('>', self.r_(q), 0), cmp_('==', arith('*', self.w_(q), arith('-', p, self.P(q))), arith('*', self.r_(q), arith('-', self.cap, self.W(q)))),
                     cmp_('<', self.W(q), self.cap), cmp_('<=', arith('-', self.cap, self.W(q)), self.w_(q)))

    def inv(self, it, k):
        p, w = self.state(it)
        self.ks.append(k)
        return [('items before this one, the last one possibly in part', b_or(b_and(self.whole(p, k), cmp_('==', w, self.W(k))),
                                                                             b_and(self.partly(p, k), cmp_('==', w, self.cap))))]


def attained_weight(r):
    attained(r, 'weight')


def attained_value(r):
    attained(r, 'value')


def attained(r, nm):
    n, A, c, _, b, cap, sp, res, ks, zpart = items(r, Attained, False)
    S, K = sp.s, sp.s.K
    # the point: everything without weight, the worthwhile items before kk, and the part fr of item kk
    kk, fr = r.int('items', 0), r.real('part', 0, 1)
    r.assume(cmp_('<=', kk, K))
    r.assume(b_implies(cmp_('==', kk, K), cmp_('==', fr, 0)))
    r.assume(cmp_('<=', arith('+', sp.W(kk), arith('*', sp.w_(kk), fr)), cap))
    first = lambda q: ite(cmp_('>', sp.r_(q), 0), Fraction(1), Fraction(0))
    y = lambda q: ite(cmp_('<', q, kk), first(q), ite(cmp_('==', q, kk), fr, Fraction(0)))
    at = r.fn('place', [I], I)
    j = r.ctx.bound('j')
    r.assume(z3.ForAll([j], T(cmp_('==', at(j), S.inv(S.cnt(j)))), patterns=[at(j)]))
    r.lemma('place of the items', z3.ForAll([j], T(b_implies(b_and(cmp_('<=', 0, j), cmp_('<', j, K)), cmp_('==', at(S.pos(j)), S.inv(j)))), patterns=[S.pos(j)]))
    X = lambda j: ite(S.sel(j), y(at(j)), Fraction(1))
    j = r.int('j', 0)
    r.assume(cmp_('<', j, n))
    r.ensure('the point lies in the unit box', b_and(cmp_('<=', 0, X(j)), cmp_('<=', X(j), 1)))
    g, f = (c, sp.w_) if nm == 'weight' else (A, sp.r_)
    want = arith('+', (sp.W if nm == 'weight' else sp.P)(kk), arith('*', f(kk), fr))
    gy = lambda q: arith('*', f(q), y(q))
    head = lambda q: ite(cmp_('<', q, kk), arith('*', f(q), first(q)), 0)
    tail = lambda q: ite(cmp_('==', q, kk), arith('*', f(q), fr), 0)
    r.add_sums(K, gy, head, tail)
    r.cut_sum(K, kk, lambda q: arith('*', f(q), first(q)))
    r.one_term(K, lambda q: arith('*', f(q), fr), kk)
    r.lemma('part of the last item (%s)' % nm, cmp_('==', r.sum(K, tail), arith('*', f(kk), fr)))
    r.lemma('items before it (%s)' % nm, cmp_('==', r.sum(K, head), sp.W(kk) if nm == 'weight' else sp.P(kk)))
    r.lemma('%s of the chosen items' % nm, cmp_('==', r.sum(K, gy), want))
    r.perm_sum(K, lambda p: arith('*', g(S.pos(p)), y(S.inv(p))))
    r.masked_sums(lambda j: arith('*', g(j), y(at(j))))
    r.lemma('%s in any order' % nm, cmp_('==', r.sum(K, gy), r.sum(K, lambda p: arith('*', g(S.pos(p)), y(S.inv(p))))))
    mid = r.sum(K, lambda p: arith('*', g(S.pos(p)), y(at(S.pos(p)))))
    r.lemma('%s by place' % nm, cmp_('==', mid, r.sum(K, lambda p: arith('*', g(S.pos(p)), y(S.inv(p))))))
    sel = lambda j: ite(S.sel(j), arith('*', g(j), y(at(j))), 0)
    r.lemma('%s of the selected items' % nm, cmp_('==', r.sum(n, sel), mid))
    r.lemma('%s of the chosen items of the instance' % nm, cmp_('==', r.sum(n, sel), r.sum(K, gy)))
    r.add_sums(n, lambda j: arith('*', g(j), X(j)), sel, lambda j: ite(S.sel(j), 0, g(j)))
    r.lemma('%s of the point' % nm, cmp_('==', r.sum(n, lambda j: arith('*', g(j), X(j))), arith('+', r.sum(K, gy), r.sum(n, lambda j: ite(S.sel(j), 0, g(j))))))
    if nm == 'weight':
        r.lemma('the others have no weight', cmp_('==', r.sum(n, lambda j: ite(S.sel(j), 0, c(j))), 0))
    if nm == 'weight':
        r.ensure('the point is within the capacity', cmp_('<=', r.sum(n, lambda j: arith('*', c(j), X(j))), cap))
        return
    r.ensure('value of the point', cmp_('==', r.sum(n, lambda j: arith('*', A(j), X(j))), arith('+', zpart, arith('+', sp.P(kk), arith('*', sp.r_(kk), fr)))))
    p = arith('-', res, sp.p0)
    r.lemma('result of the loop', b_or(*[b_and(cmp_('<=', 0, k), cmp_('<=', k, K), b_or(sp.whole(p, k), sp.partly(p, k))) for k in ks]))
    # such a kk and fr give the result
    for k in ks:
        is_(r, sp, K, zpart, b, res, b_and(cmp_('<=', 0, k), cmp_('<=', k, K), sp.whole(p, k)), k, Fraction(0))
        q = z3.simplify(IT(arith('-', k, 1)))
        is_(r, sp, K, zpart, b, res, b_and(cmp_('<=', k, K), sp.partly(p, k)), q, arith('/', arith('-', sp.cap, sp.W(q)), sp.w_(q)))


def is_(r, sp, K, zpart, b, res, when, kk, fr):
    r.ensure('the result is the value of such a point', b_implies(when, b_and(
        cmp_('<=', 0, kk), cmp_('<=', kk, K), b_implies(cmp_('==', kk, K), cmp_('==', fr, 0)), cmp_('<=', 0, fr), cmp_('<=', fr, 1),
        cmp_('<=', arith('+', sp.W(kk), arith('*', sp.w_(kk), fr)), sp.cap),
        cmp_('==', res, arith('-', arith('+', zpart, arith('+', sp.P(kk), arith('*', sp.r_(kk), fr))), b)))))


def naive_value(r, V, s, i):
    return arith('-', r.sum(V.n, lambda j: V.A(s, i, j)), V.b(s, i))


def nonneg(r, V):
    s, i, j = r.ctx.bound('s'), r.ctx.bound('i'), r.ctx.bound('j')
    for t in (V.A(s, i, j), V.c(j)):
        vs = [v for v in (s, i, j) if any(v.eq(a) for a in t.children())]
        r.assume(z3.ForAll(vs, t >= 0, patterns=[t]))
        core.NONNEG_DECLS.add(t.decl().name())


def point(r, V):
    """an arbitrary point of the box, binary where the variable is"""
    x = r.fn('x', [I], RS)
    j = r.ctx.bound('j')
    r.assume(z3.ForAll([j], x(j) >= 0, patterns=[x(j)]))
    r.assume(z3.ForAll([j], x(j) <= 1, patterns=[x(j)]))
    r.assume(z3.ForAll([j], T(b_implies(b_not(V.cont(j)), b_or(cmp_('==', x(j), 0), cmp_('==', x(j), 1)))), patterns=[x(j)]))
    core.NONNEG_DECLS.add(x(j).decl().name())
    return x


def some_constraint(r, V):
    s, i = r.int('s', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, V.S), cmp_('<', i, V.m(s))))
    return s, i


def values(r, V, f, s, i):
    """the value the finder holds for constraint i of scenario s"""
    q = r.seq(r.fld(f, 'bigM'))
    r.ensure('one list of values per scenario', cmp_('==', q.n, V.S))
    v = r.nd(r.call(f, 'get_vector_big_M', s))
    r.ensure('one value per constraint', b_and(len(v.shape) == 1, cmp_('==', v.shape[0], V.m(s))))
    return v.at(i)


def old_finder(r, V):
    """a finder with values left from another partition"""
    n0 = r.int('old_scenarios', 0)
    m0, M0 = r.fn('old_constraints', [I], I), r.fn('old_value', [I, I], RS)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], m0(k) >= 0, patterns=[m0(k)]))
    old = r.it.new_list(Fn(n0, lambda s: r.it.new_nd(Nd((m0(s),), lambda i, s=s: M0(s, i), 'f'))))
    return r.obj(r.cls('src.BigMFinder', 'BigMFinder'), chance_instance=V.ref, nb_scenarios=n0, song_violations=None, bigM=old)


def naive(r, update=False):
    V = View(r)
    nonneg(r, V)
    x = point(r, V)
    s, i = some_constraint(r, V)
    F = r.cls('src.BigMFinder', 'BigMFinder')
    r.canary()
    if update:
        f = old_finder(r, V)
        r.call(f, 'update_big_M', V.S, r.real('vUB'), method='naive')
    else:
        f = r.it.call(F, [V.ref], {})
    r.no_raise()
    v = values(r, V, f, s, i)
    r.ensure('value of the constraint', cmp_('==', v, naive_value(r, V, s, i)))
    r.ensure('at least the violation at every point of the unit box', cmp_('>=', v, arith('-', V.lhs(s, i, x), V.b(s, i))))


def naive_update(r):
    naive(r, True)


def belotti(r):
    """update_big_M with the contracts of the knapsack function and of the knapsack model"""
    V = View(r)
    nonneg(r, V)
    x = point(r, V)
    vub = r.real('vUB')
    M = r.fn('largest_violation', [I, I], RS)
    s, i = some_constraint(r, V)
    within = cmp_('<=', r.sum(V.n, lambda j: arith('*', V.c(j), x(j))), vub)
    r.assume(b_implies(within, cmp_('>=', M(s, i), arith('-', V.lhs(s, i, x), V.b(s, i)))))
    decl = V.A(s, i, i).decl()
    mixed = r.exists(V.n, lambda j: b_not(V.cont(j)))

    def knap(it, a, k):
        d = dict(zip(['revenue', 'obj_constant', 'weights', 'capacity'], a))
        d.update(k)
        rev, w = it.content(d['revenue']), it.content(d['weights'])
        j = r.ctx.fresh('j', I)
        t = T(rev.at(j))
        if not (z3.is_app(t) and t.decl().eq(decl) and t.arg(2).eq(j)):
            raise Unsupported("revenues of the knapsack")
        ss, ii = t.arg(0), t.arg(1)
        r.ctx.pos = 'precondition of solve_continuous_knapsack'
        r.ctx.assume(b_and(cmp_('<=', 0, j), cmp_('<', j, V.n)))
        r.ctx.oblige('data of the constraint', b_and(cmp_('==', rev.shape[0], V.n), cmp_('==', w.shape[0], V.n), cmp_('==', w.at(j), V.c(j)),
                                                    cmp_('==', d['obj_constant'], V.b(ss, ii))))
        r.ctx.oblige('the upper bound is the capacity', cmp_('==', d['capacity'], vub))
        r.ctx.oblige('every variable is continuous', b_not(mixed))
        return M(ss, ii)
    r.it.summaries['song_big_m.solve_continuous_knapsack'] = knap
    KM = r.cls('src.optim.BigMKnapsackModel', 'BigMKnapsackModel')
    h = r.it.st.heap
    gs, gi, gb = 'ghost_s', 'ghost_i', 'ghost_built'
    h[gs], h[gi], h[gb] = z3.IntVal(-1), z3.IntVal(-1), z3.IntVal(0)
    allowed = ('MIPGap', 'IntFeasTol', 'FeasibilityTol', 'Threads', 'LogToConsole', 'OutputFlag', 'MIPGapAbs', 'Seed')

    def param(it, a, k):
        r.ctx.pos = 'parameters'
        r.ctx.oblige('no parameter that changes the meaning of the bound', str(a[0]) in allowed, assume_after=False)

    def model(it, a, k):
        d = dict(zip(['chance_instance', 'vUB'], a))
        d.update(k)
        r.ctx.pos = 'precondition of BigMKnapsackModel'
        r.ctx.oblige('model of the instance and the upper bound', b_and(d['chance_instance'] is V.ref, cmp_('==', d['vUB'], vub)))
        return r.obj(KM, chance_instance=V.ref, vUB=vub, grb_model=r.obj(r.cls('src.instance.ChanceInstance', 'ChanceInstance'), setParam=Builtin('setParam', param)))

    def objective(it, a, k):
        d = dict(zip(['s', 'i'], a[1:]))
        d.update(k)
        it.st.heap[gs], it.st.heap[gi] = IT(d['s']), IT(d['i'])

    def build(it, a, k):
        it.st.heap[gb] = z3.IntVal(1)

    def bound(it, a, k):
        r.ctx.pos = 'precondition of get_obj_bnd'
        r.ctx.oblige('the model is built', cmp_('==', it.st.heap[gb], 1))
        return M(it.st.heap[gs], it.st.heap[gi])
    r.it.summaries['BigMKnapsackModel'] = model
    for cls in ('OptiModel', 'BigMKnapsackModel'):
        r.it.summaries[cls + '.solve'] = lambda it, a, k: None
        r.it.summaries[cls + '.get_obj_bnd'] = bound
        r.it.summaries[cls + '.build'] = build
        r.it.summaries[cls + '.initialize_violation_objective'] = objective
    f = old_finder(r, V)
    r.canary()
    r.call(f, 'update_big_M', V.S, vub)
    r.no_raise()
    v = values(r, V, f, s, i)
    r.ensure('value of this constraint', cmp_('==', v, M(s, i)))
    r.ensure('at least the violation at every point within the upper bound', b_implies(within, cmp_('>=', v, arith('-', V.lhs(s, i, x), V.b(s, i)))))


def model(r):
    """BigMKnapsackModel after another constraint was treated"""
    V = View(r)
    w = grb.point(r.it)
    vub = r.real('vUB')
    s, i = some_constraint(r, V)
    s0, i0 = some_constraint(r, V)
    o = r.it.call(r.cls('src.optim.BigMKnapsackModel', 'BigMKnapsackModel'), [V.ref, vub], {})
    r.canary()
    r.call(o, 'build', verbose=r.bool('verbose'))
    r.call(o, 'initialize_violation_objective', s0, i0)
    r.call(o, 'solve')
    r.call(o, 'initialize_violation_objective', s, i)
    r.call(o, 'solve')
    bnd = r.call(o, 'get_obj_bnd')
    r.it.top_raises = []
    g = r.fld(o, 'grb_model')
    x = grb.values(r.it, g, 'x', w)
    acc = grb.accept_at(r.it, g, w)
    dom = lambda j: ite(V.cont(j), b_and(cmp_('<=', 0, x(j)), cmp_('<=', x(j), 1)), b_or(cmp_('==', x(j), 0), cmp_('==', x(j), 1)))
    within = cmp_('<=', r.sum(V.n, lambda j: arith('*', V.c(j), x(j))), vub)
    r.ensure('accepted: the points within the upper bound', b_implies(b_and(r.forall(V.n, dom), within), acc))
    r.ensure('accepted: nothing else', b_implies(acc, within))
    r.ensure('objective: the violation of the constraint', cmp_('==', grb.obj_at(r.it, g, w), arith('-', V.lhs(s, i, x), V.b(s, i))))
    r.ensure('the violation is maximised', cmp_('==', grb.get(r.it, g, 'sense'), -1))
    r.ensure('the value is at least the violation at every such point', b_implies(b_and(r.forall(V.n, dom), within), cmp_('>=', bnd, arith('-', V.lhs(s, i, x), V.b(s, i)))))


CONTRACTS = [('solve_continuous_knapsack, bound', knapsack), ('solve_continuous_knapsack, attained (weight)', attained_weight),
             ('solve_continuous_knapsack, attained (value)', attained_value), ('naive values', naive), ('update_big_M, naive', naive_update),
             ('update_big_M, belotti', belotti), ('BigMKnapsackModel', model)]
