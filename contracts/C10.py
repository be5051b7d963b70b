"""C10: what the chance-constrained model accepts, for an arbitrary instance given by its getters (C03: a partitioned
instance is such an instance)"""
from dv.spec import *
from dv import grb
from dv.grb import CONT, BIN

TOL = Fraction(1, 10 ** 6)


class View:
    """arbitrary chance-constrained problem; m(s) constraints in scenario s, type of every variable arbitrary"""

    def __init__(self, r, mixed=True):
        grb.install(r.it)
        self.r = r
        n, S = self.n, self.S = r.int('nb_vars', 1), r.int('nb_scenarios', 1)
        m = self.m = r.fn('nb_constraints', [I], I)
        s = r.ctx.bound('s')
        r.assume(z3.ForAll([s], m(s) >= 1, patterns=[m(s)]))
        self.A, self.b, self.c = r.fn('A', [I, I, I], RS), r.fn('b', [I, I], RS), r.fn('c', [I], RS)
        self.p, self.eps = r.fn('p', [I], RS), r.real('epsilon', 0)
        cont = r.bool('continuous')
        self.cont = r.fn('continuous_var', [I], B) if mixed else (lambda j: cont)
        lb = lambda j: XR(False, b_not(self.cont(j)), Fraction(0))
        ub = lambda j: XR(b_not(self.cont(j)), False, Fraction(1))
        nd = lambda *a: r.it.new_nd(Nd(*a))
        get = dict(
            get_nb_scenarios=lambda it, a, k: S, get_nb_vars=lambda it, a, k: n,
            get_nb_constraints=lambda it, a, k: m(arg(a, k)),
            get_var_type=lambda it, a, k: nd((n,), lambda j: self.cont(j), 'b'),
            get_var_lb=lambda it, a, k: nd((n,), lb, 'f'), get_var_ub=lambda it, a, k: nd((n,), ub, 'f'),
            get_vector_c=lambda it, a, k: nd((n,), lambda j: self.c(j), 'f'),
            get_matrix_A=lambda it, a, k: nd((m(arg(a, k)), n), lambda i, j, s=arg(a, k): self.A(s, i, j), 'f'),
            get_vector_b=lambda it, a, k: nd((m(arg(a, k)),), lambda i, s=arg(a, k): self.b(s, i), 'f'),
            get_proba=lambda it, a, k: nd((S,), lambda s: self.p(s), 'f'), get_epsilon=lambda it, a, k: self.eps)
        cls = r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance')
        self.ref = r.obj(cls, **{k: Builtin(k, f) for k, f in get.items()})
        self.M = r.fn('big_m', [I, I], RS)
        self.finder = r.obj(r.cls('src.BigMFinder', 'BigMFinder'), get_vector_big_M=Builtin('get_vector_big_M', lambda it, a, k: nd(
            (m(arg(a, k)),), lambda i, s=arg(a, k): self.M(s, i), 'f')))

    # -- the stated problem
    def lhs(self, s, i, x):
        return self.r.sum(self.n, lambda j: arith('*', self.A(s, i, j), x(j)))

    def domain(self, x, z):
        r = self.r
        dom = lambda j: ite(self.cont(j), b_and(cmp_('<=', 0, x(j)), cmp_('<=', x(j), 1)), b_or(cmp_('==', x(j), 0), cmp_('==', x(j), 1)))
        return b_and(r.forall(self.n, dom), r.forall(self.S, lambda s: b_or(cmp_('==', z(s), 0), cmp_('==', z(s), 1))))

    def sat(self, s, x):
        return self.r.forall(self.m(s), lambda i: cmp_('<=', self.lhs(s, i, x), self.b(s, i)))

    def selected(self, x, z):
        return self.r.forall(self.S, lambda s: b_implies(cmp_('==', z(s), 1), self.sat(s, x)))

    def chance(self, z):
        return cmp_('>=', self.r.sum(self.S, lambda s: arith('*', z(s), self.p(s))), arith('-', 1, self.eps))

    def obj(self, x):
        return self.r.sum(self.n, lambda j: arith('*', self.c(j), x(j)))


def arg(a, k):
    v = a[0] if a else list(k.values())[0]
    return v


def point(r, g, w):
    x, z = grb.values(r.it, g, 'x', w), grb.values(r.it, g, 'z', w)
    if x is None or z is None:
        raise Unsupported("variable groups of the model")
    return x, z


def starts(r, V):
    """no start values, or arbitrary ones for some of the indicators"""
    K = r.int('nb_starts', 0, V.S)
    q, v = r.fn('start_index', [I], I), r.fn('start_value', [I], RS)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], z3.And(q(k) >= 0, q(k) < V.S), patterns=[q(k)]))
    return r.it.new_dict(Dct(lambda s: r.exists(K, lambda k: cmp_('==', q(k), s)), lambda s: v(s), Fn(K, lambda k: q(k))))


def indicator(r, start=False):
    V = View(r)
    w = grb.point(r.it)
    zs = starts(r, V) if start else None
    o = r.it.call(r.cls('src.optim.CCLPModel', 'CCLPModel'), [V.ref, None], {})
    r.canary()
    r.call(o, 'build', use_big_M=False, use_lazy=r.bool('lazy'), z_start=zs, verbose=r.bool('verbose'))
    r.no_raise()
    g = r.fld(o, 'grb_model')
    x, z = point(r, g, w)
    acc = grb.accept_at(r.it, g, w)
    s, i, j = r.int('s', 0), r.int('i', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', s, V.S), cmp_('<', i, V.m(s)), cmp_('<', j, V.n)))
    accepts(r, V, acc, x, z, s, i, j, selected=b_implies(cmp_('==', z(s), 1), cmp_('<=', V.lhs(s, i, x), V.b(s, i))))
    r.ensure('every point of the stated problem is accepted', b_implies(b_and(V.domain(x, z), V.selected(x, z), V.chance(z)), acc))
    objective(r, V, g, x, w)


def accepts(r, V, acc, x, z, s, i, j, selected):
    """consequences of acceptance, for an arbitrary scenario, constraint and variable"""
    dom = ite(V.cont(j), b_and(cmp_('<=', 0, x(j)), cmp_('<=', x(j), 1)), b_or(cmp_('==', x(j), 0), cmp_('==', x(j), 1)))
    r.ensure('an accepted point respects bounds and types', b_implies(acc, dom))
    r.ensure('indicators of an accepted point are zero or one', b_implies(acc, b_or(cmp_('==', z(s), 0), cmp_('==', z(s), 1))))
    r.ensure('selected scenarios of an accepted point are satisfied', b_implies(acc, selected))
    r.ensure('selected probability of an accepted point', b_implies(acc, V.chance(z)))


def objective(r, V, g, x, w):
    r.ensure('the objective is that of the instance', cmp_('==', grb.obj_at(r.it, g, w), V.obj(x)))
    r.ensure('the objective is maximised', cmp_('==', grb.get(r.it, g, 'sense'), -1))


def with_starts(r):
    indicator(r, True)


def big_m(r, start=False):
    V = View(r)
    w = grb.point(r.it)
    zs = starts(r, V) if start else None
    o = r.it.call(r.cls('src.optim.CCLPModel', 'CCLPModel'), [V.ref, V.finder], {})
    r.canary()
    r.call(o, 'build', use_big_M=True, use_lazy=r.bool('lazy'), z_start=zs, verbose=r.bool('verbose'))
    r.no_raise()
    g = r.fld(o, 'grb_model')
    x, z = point(r, g, w)
    acc = grb.accept_at(r.it, g, w)
    s, i, j = r.int('s', 0), r.int('i', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', s, V.S), cmp_('<', i, V.m(s)), cmp_('<', j, V.n)))
    accepts(r, V, acc, x, z, s, i, j, selected=b_implies(b_and(cmp_('==', z(s), 1), cmp_('>=', V.M(s, i), arith('-', 0, TOL))),
                                                         cmp_('<=', V.lhs(s, i, x), V.b(s, i))))
    viol = lambda s, i: arith('-', V.lhs(s, i, x), V.b(s, i))
    within = lambda s: r.forall(V.m(s), lambda i: b_implies(b_or(cmp_('==', z(s), 0), cmp_('<', V.M(s, i), 0)), cmp_('<=', viol(s, i), V.M(s, i))))
    r.ensure('no point of the stated problem within the big-M values is cut off', b_implies(
        b_and(V.domain(x, z), V.selected(x, z), V.chance(z), r.forall(V.S, within)), acc))
    objective(r, V, g, x, w)


def big_m_starts(r):
    big_m(r, True)


def solved(r):
    """solve_cclp_model: pruning fixes exactly the given indicators; the returned point, objective and bound are those of
    that model"""
    V = View(r)
    w = grb.point(r.it)
    C = r.cls('src.optim.CCLPModel', 'CCLPModel')
    K = r.int('nb_pruned', 0)
    d = r.fn('pruned', [I], I)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], z3.And(d(k) >= 0, d(k) < V.S), patterns=[d(k)]))
    prune = r.it.new_list(Fn(K, lambda k: d(k)))
    L = r.real('time_limit')
    seen = {}
    opt = grb.optimize

    o = r.obj(r.cls('src.solver.Solver', 'Solver'))
    r.canary()
    big, lazy = r.bool('big_m'), r.bool('lazy')
    xs, zs, v, bnd = r.call(o, 'solve_cclp_model', V.ref, V.finder, prune_indices=prune, time_limit=L, gap=r.real('gap', 0),
                            use_one_thread=r.bool('one'), use_big_M=False, use_lazy=lazy)
    # an exception (interrupted, no solution within the limit) leaves no result
    r.it.top_raises = []
    ms = r.it.grb.models
    r.ensure('one model is solved', len(ms) == 1)
    g = ms[-1]
    x, z = point(r, g, w)
    acc = grb.accept_at(r.it, g, w)
    j, s, i = r.int('j', 0), r.int('s', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, V.S), cmp_('<', i, V.m(s)), cmp_('<', j, V.n)))
    free = r.forall(K, lambda k: cmp_('==', z(d(k)), 0))
    accepts(r, V, acc, x, z, s, i, j, selected=b_implies(cmp_('==', z(s), 1), cmp_('<=', V.lhs(s, i, x), V.b(s, i))))
    q = r.int('q', 0)
    r.assume(cmp_('<', q, K))
    r.ensure('pruned indicators of an accepted point are zero', b_implies(acc, cmp_('==', z(d(q)), 0)))
    r.ensure('pruning cuts off nothing else', b_implies(b_and(V.domain(x, z), V.selected(x, z), V.chance(z), free), acc))
    r.ensure('no accepted point is better than the returned bound', b_implies(acc, cmp_('<=', V.obj(x), bnd)))
    X, Z = r.nd(xs), r.nd(zs)
    r.ensure('one value per variable', b_and(cmp_('==', X.shape[0], V.n), cmp_('==', Z.shape[0], V.S)))
    r.ensure('the returned objective is that of the returned point', cmp_('==', v, V.obj(lambda j: X.at(j))))
    Xf, Zf = (lambda j: X.at(j)), (lambda s: Z.at(s))
    dom = ite(V.cont(j), b_and(cmp_('<=', 0, Xf(j)), cmp_('<=', Xf(j), 1)), b_or(cmp_('==', Xf(j), 0), cmp_('==', Xf(j), 1)))
    r.ensure('the returned point respects bounds and types', b_and(dom, b_or(cmp_('==', Zf(s), 0), cmp_('==', Zf(s), 1))))
    r.ensure('the returned point satisfies its selected scenarios', b_implies(cmp_('==', Zf(s), 1), cmp_('<=', V.lhs(s, i, Xf), V.b(s, i))))
    r.ensure('the returned point satisfies the chance constraint', V.chance(Zf))
    r.ensure('the returned indicators respect the pruning', cmp_('==', Zf(d(q)), 0))


CONTRACTS = [('build, indicators', indicator), ('build, indicators and start values', with_starts), ('build, big-M', big_m),
             ('build, big-M and start values', big_m_starts), ('solve_cclp_model', solved)]
