"""C09: DeterModel (object invariant over build, add and remove) and Evaluator"""
from dv.spec import *
from dv import grb
from contracts.C10 import View

TRUSTED = ["a sum over a list without repetitions is the sum over the set of its elements (lemmas/Sums.lean)"]


class State:
    """DeterModel in an arbitrary state that satisfies its invariant: the model accepts the points of the domain that satisfy
    every constraint of every scenario with inc(s); the constraints of the included scenarios are on record"""

    def __init__(self, r, arbitrary=True):
        V = self.V = View(r)
        self.r = r
        r.it.grb_sum = True
        self.w = grb.point(r.it)
        self.o = r.it.call(r.cls('src.optim.DeterModel', 'DeterModel'), [V.ref], {})
        if not arbitrary:
            return
        r.call(self.o, 'build', r.it.new_list(Lit([])), verbose=r.bool('verbose'))
        self.g = r.fld(self.o, 'grb_model')
        self.points()
        inc = self.inc = r.fn('included', [I], B)
        s = r.ctx.bound('s')
        r.assume(z3.ForAll([s], z3.Implies(inc(s), z3.And(0 <= s, s < V.S)), patterns=[inc(s)]))
        before = r.int('before_any', 0, 0)
        X = self.at_pt
        grb.put(r.it, self.g, 'bad', r.sum(V.S, lambda s: ite(inc(s), self.broken(s, X), 0)))
        rec = r.fn('on_record', [I], B)
        r.assume(z3.ForAll([s], z3.Implies(inc(s), rec(s)), patterns=[inc(s)]))
        self.rec = rec
        con = lambda s, i: T(cmp_('<=', V.lhs(s, i, X), V.b(s, i)))
        d = Dct(lambda s: rec(s), lambda s: Frozen(Dct(lambda i, s=s: b_and(cmp_('<=', 0, i), cmp_('<', i, V.m(s))), lambda i, s=s: con(s, i)), None, 'dict'))
        r.it.setattr(self.o, 'feasibility_constraint', r.it.new_dict(d))

    def points(self):
        r = self.r
        pt = grb.g_of(r.it).pt
        self.at_pt = grb.values(r.it, self.g, 'x', pt)
        self.x = grb.values(r.it, self.g, 'x', self.w)
        if self.x is None:
            raise Unsupported("variable groups of the model")

    def broken(self, s, x):
        """number of constraints of scenario s that x does not satisfy"""
        V = self.V
        return self.r.sum(V.m(s), lambda i: ite(cmp_('<=', V.lhs(s, i, x), V.b(s, i)), 0, 1))

    def dom(self, x):
        V = self.V
        return self.r.forall(V.n, lambda j: self.dom1(x, j))

    def dom1(self, x, j):
        return ite(self.V.cont(j), b_and(cmp_('<=', 0, x(j)), cmp_('<=', x(j), 1)), b_or(cmp_('==', x(j), 0), cmp_('==', x(j), 1)))


def distinct(r, V, name='scenario', lo=0):
    """list of scenarios without repetitions"""
    K = r.int('nb_' + name, lo)
    L = r.fn(name, [I], I)
    pos = r.fn('position_of_' + name, [I], I)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], z3.And(L(k) >= 0, L(k) < V.S), patterns=[L(k)]))
    r.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < IT(K)), pos(L(k)) == k), patterns=[L(k)]))
    mem = lambda s: b_and(cmp_('<=', 0, pos(s)), cmp_('<', pos(s), K), cmp_('==', L(pos(s)), s))
    return K, L, mem, r.it.new_list(Fn(K, lambda k: L(k)))


def as_set(r, V, K, L, mem, f):
    r.assume(cmp_('==', r.sum(K, lambda k: f(L(k))), r.sum(V.S, lambda s: ite(mem(s), f(s), 0))))


def check(r, D, inc, what):
    """the model accepts exactly the points of the domain that satisfy the scenarios with inc"""
    V, x = D.V, D.x
    s, i, j = r.int('s', 0), r.int('i', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', s, V.S), cmp_('<', i, V.m(s)), cmp_('<', j, V.n)))
    acc = grb.accept_at(r.it, D.g, D.w)
    bad = vsubst(grb.get(r.it, D.g, 'bad'), [(grb.g_of(r.it).pt, D.w)])
    f = lambda s: D.broken(s, x)
    total = r.sum(V.S, lambda s: ite(inc(s), f(s), 0))
    r.lemma('broken constraints %s are those of the scenarios included' % what, cmp_('==', bad, total))
    term = lambda s: ite(inc(s), f(s), 0)
    one = lambda i: ite(cmp_('<=', V.lhs(s, i, x), V.b(s, i)), 0, 1)
    r.term_le(V.S, term, s)
    r.term_le(V.m(s), one, i)
    r.ensure('accepted points %s respect bounds and types' % what, b_implies(acc, D.dom1(x, j)))
    g = len(r.ctx.guard)
    r.ctx.guard.append(b_and(cmp_('==', bad, 0), inc(s)))
    r.lemma('no constraint of an included scenario is broken', cmp_('==', f(s), 0))
    r.ensure('accepted points %s satisfy every constraint of every included scenario' % what, cmp_('<=', V.lhs(s, i, x), V.b(s, i)))
    del r.ctx.guard[g:]
    t = r.nonzero(V.S, term)
    u = r.nonzero(V.m(t), lambda i: ite(cmp_('<=', V.lhs(t, i, x), V.b(t, i)), 0, 1))
    g = len(r.ctx.guard)
    r.ctx.guard.append(b_and(D.dom(x), r.forall(V.S, lambda s: b_implies(inc(s), V.sat(s, x)))))
    r.lemma('no constraint of an included scenario is broken by a point that satisfies them', b_or(b_not(inc(t)), cmp_('==', f(t), 0)))
    r.lemma('no constraint is broken by it', cmp_('==', total, 0))
    r.ensure('nothing else is excluded %s' % what, acc)
    del r.ctx.guard[g:]
    r.ensure('objective of the instance %s' % what, cmp_('==', grb.obj_at(r.it, D.g, D.w), V.obj(x)))
    r.ensure('maximised %s' % what, cmp_('==', grb.get(r.it, D.g, 'sense'), -1))


def record(r, D, inc, what):
    """the constraints of the included scenarios are on record"""
    V = D.V
    s, i = r.int('s', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, V.S), cmp_('<', i, V.m(s)), inc(s)))
    d = r.it.content(r.fld(D.o, 'feasibility_constraint'))
    r.lemma('included scenarios are on record %s' % what, d.has(s))
    e = r.it.content(d.get(s))
    r.lemma('every constraint is on record %s' % what, e.has(i))
    f = r.it.truth(e.get(i))
    r.ensure('the constraint on record is that of the scenario %s' % what, T(f) == T(cmp_('<=', V.lhs(s, i, D.at_pt), V.b(s, i))))


def build(r, one=False):
    D = State(r, False)
    V = D.V
    if one:
        s0 = r.int('scenario', 0)
        r.assume(cmp_('<', s0, V.S))
        mem = lambda s: cmp_('==', s, s0)
        arg = s0
    else:
        K, L, mem, arg = distinct(r, V)
    r.canary()
    r.call(D.o, 'build', arg, verbose=r.bool('verbose'))
    r.no_raise()
    D.g = r.fld(D.o, 'grb_model')
    D.points()
    if one:
        f = lambda s: D.broken(s, D.x)
        r.one_term(V.S, f, s0)
    else:
        as_set(r, V, K, L, mem, lambda s: D.broken(s, D.x))
    check(r, D, mem, 'after building')
    record(r, D, mem, 'after building')


def build_one(r):
    build(r, True)


def add(r):
    D = State(r)
    V = D.V
    K, L, mem, arg = distinct(r, V)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < IT(K)), z3.Not(D.inc(L(k)))), patterns=[L(k)]))
    r.canary()
    r.call(D.o, 'add', arg)
    r.no_raise()
    as_set(r, V, K, L, mem, lambda s: D.broken(s, D.x))
    inc = lambda s: b_or(D.inc(s), mem(s))
    part = lambda c: lambda s: ite(c(s), D.broken(s, D.x), 0)
    k = r.add_sums(V.S, part(inc), part(D.inc), part(mem))
    r.lemma('an added scenario was not included', b_not(b_and(D.inc(k), mem(k))))
    check(r, D, inc, 'after adding')
    record(r, D, inc, 'after adding')


def remove(r):
    D = State(r)
    V = D.V
    K, L, mem, arg = distinct(r, V)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < IT(K)), D.inc(L(k))), patterns=[L(k)]))
    r.canary()
    r.call(D.o, 'remove', arg)
    r.no_raise()
    as_set(r, V, K, L, mem, lambda s: D.broken(s, D.x))
    inc = lambda s: b_and(D.inc(s), b_not(mem(s)))
    part = lambda c: lambda s: ite(c(s), D.broken(s, D.x), 0)
    k = r.add_sums(V.S, part(D.inc), part(inc), part(mem))
    r.lemma('a removed scenario was included', b_implies(mem(k), D.inc(k)))
    check(r, D, inc, 'after removing')
    record(r, D, inc, 'after removing')


def single(r, what):
    """add / remove of one scenario given by its number"""
    D = State(r)
    V = D.V
    s0 = r.int('scenario', 0)
    r.assume(b_and(cmp_('<', s0, V.S), D.inc(s0) if what == 'remove' else b_not(D.inc(s0))))
    r.canary()
    r.call(D.o, what, s0)
    r.no_raise()
    mem = lambda s: cmp_('==', s, s0)
    f = lambda s: D.broken(s, D.x)
    r.one_term(V.S, f, s0)
    part = lambda c: lambda s: ite(c(s), f(s), 0)
    if what == 'add':
        inc = lambda s: b_or(D.inc(s), mem(s))
        r.add_sums(V.S, part(inc), part(D.inc), part(mem))
    else:
        inc = lambda s: b_and(D.inc(s), b_not(mem(s)))
        r.add_sums(V.S, part(D.inc), part(inc), part(mem))
    check(r, D, inc, 'afterwards')
    record(r, D, inc, 'afterwards')


def add_one(r):
    single(r, 'add')


def remove_one(r):
    single(r, 'remove')


def cost(r, one=False):
    """subset_cost: optimal value and an optimal solution of the model with exactly the scenarios asked for"""
    V = View(r)
    w = grb.point(r.it)
    if one:
        s0 = r.int('scenario', 0)
        r.assume(cmp_('<', s0, V.S))
        arg, n, at = s0, 1, lambda k: s0
    else:
        K, L, mem, arg = distinct(r, V, lo=1)
        n, at = K, L
    E = r.it.call(r.cls('src.Evaluator', 'Evaluator'), [V.ref], {})
    r.canary()
    v, xs = r.call(E, 'subset_cost', arg)
    r.it.top_raises = []        # interrupted or infeasible: no result
    ms = r.it.grb.models
    g = ms[-1]
    X = r.nd(xs)
    x = lambda j: X.at(j)
    y = grb.values(r.it, g, 'x', w)
    if y is None:
        raise Unsupported("variable groups of the model")
    j, k, i = r.int('j', 0), r.int('k', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', j, V.n), cmp_('<', k, n), cmp_('<', i, V.m(at(k)))))
    dom = lambda x, j: ite(V.cont(j), b_and(cmp_('<=', 0, x(j)), cmp_('<=', x(j), 1)), b_or(cmp_('==', x(j), 0), cmp_('==', x(j), 1)))
    r.ensure('one value per variable', cmp_('==', X.shape[0], V.n))
    r.ensure('the solution respects bounds and types', dom(x, j))
    r.ensure('the solution satisfies every constraint of every scenario', cmp_('<=', V.lhs(at(k), i, x), V.b(at(k), i)))
    r.ensure('the cost is the objective of the solution', cmp_('==', v, V.obj(x)))
    feas = b_and(r.forall(V.n, lambda j: dom(y, j)), r.forall(n, lambda k: V.sat(at(k), y)))
    r.ensure('no point that satisfies the scenarios is better', b_implies(feas, cmp_('<=', V.obj(y), v)))


def cost_one(r):
    cost(r, True)


def orders(r):
    """costs of scenarios and subsets in the order given, each computed by subset_cost for exactly that scenario or subset"""
    S = r.int('nb_scenarios', 1)
    c = r.fn('cost_of_scenario', [I], RS)
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), get_nb_scenarios=Builtin('get_nb_scenarios', lambda it, a, k: S))

    def one(it, a, k):
        s = a[-1]
        if not is_numlike(s):
            raise Unsupported("argument of subset_cost")
        return c(s), r.vec('x', 3)
    r.it.summaries['Evaluator.subset_cost'] = one
    E = r.it.call(r.cls('src.Evaluator', 'Evaluator'), [inst], {})
    K = r.int('nb_asked', 1)
    L = r.fn('asked', [I], I)
    r.canary()
    out = r.seq(r.call(E, 'scenario_costs', r.it.new_list(Fn(K, lambda k: L(k)))))
    allc = r.seq(r.call(E, 'get_all_single_scenario_costs'))
    r.no_raise()
    k = r.int('k', 0)
    r.ensure('one cost per scenario asked for', cmp_('==', out.n, K))
    r.ensure('cost of the scenario at this position', b_implies(cmp_('<', k, K), cmp_('==', out.at(k), c(L(k)))))
    r.ensure('one cost per scenario', cmp_('==', allc.n, S))
    r.ensure('cost of this scenario', b_implies(cmp_('<', k, S), cmp_('==', allc.at(k), c(k))))


def partition_cost(r):
    K, nv = r.int('nb_subsets', 1), r.int('nb_vars', 1)
    size, part = r.fn('size', [I], I), r.fn('part', [I, I], I)
    q = r.ctx.bound('q')
    r.assume(z3.ForAll([q], size(q) >= 1, patterns=[size(q)]))
    c, x = r.fn('cost_of_subset', [I], RS), r.fn('solution_of_subset', [I, I], RS)

    def one(it, a, k):
        L = seq_of(it.content(a[-1]))
        e = L.at(z3.IntVal(0))
        if not (is_sym(e) and z3.is_app(e) and e.num_args() == 2):
            raise Unsupported("argument of subset_cost")
        g = e.arg(0)
        j = r.ctx.bound('j')
        same = r.ctx.forall(size(g), lambda j: cmp_('==', L.at(j), part(g, j)))
        r.ctx.pos = 'precondition of subset_cost'
        r.ctx.oblige('the model is built for exactly this subset', b_and(cmp_('==', L.n, size(g)), same), assume_after=False)
        return c(g), Frozen(Nd((nv,), lambda j: x(g, j), 'f'), None, 'nd')
    r.it.summaries['Evaluator.subset_cost'] = one
    E = r.it.call(r.cls('src.Evaluator', 'Evaluator'), [None], {})
    P = r.it.new_list(Fn(K, lambda q: Frozen(Fn(size(q), lambda j, q=q: part(q, j)))))
    r.canary()
    cs, xs = r.call(E, 'partition_cost', P)
    r.no_raise()
    cs, xs = r.seq(cs), r.seq(xs)
    k, j = r.int('k', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', k, K), cmp_('<', j, nv)))
    r.ensure('one cost and solution per subset', b_and(cmp_('==', cs.n, K), cmp_('==', xs.n, K)))
    r.ensure('cost of the subset at this position', cmp_('==', cs.at(k), c(k)))
    r.ensure('solution of the subset at this position', cmp_('==', r.nd(xs.at(k)).at(j), x(k, j)))


CONTRACTS = [('build', build), ('build, one scenario', build_one), ('add', add), ('remove', remove), ('add, one scenario', add_one),
             ('remove, one scenario', remove_one), ('subset_cost', cost), ('subset_cost, one scenario', cost_one),
             ('scenario_costs', orders), ('partition_cost', partition_cost)]
