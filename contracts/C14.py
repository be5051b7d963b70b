"""C14: scenarios selected for the projection, incumbents, the projection's bound"""
from dv.spec import *
from dv import grb
from contracts import C09

LB = ('src.LowerBounder', 'LowerBounder')
TOL = Fraction(1, 10 ** 7)


def selected(r):
    S = r.int('S', 1)
    p = r.fn('p', [I], RS)
    s = r.ctx.bound('s')
    r.assume(z3.ForAll([s], p(s) > 0, patterns=[p(s)]))
    core.NONNEG_DECLS.add(p(s).decl().name())
    r.assume(cmp_('==', r.sum(S, p), 1))
    eps = r.real('epsilon', 0)
    r.assume(eps < 1)
    idx = r.fn('index', [I], RS)
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), nb_scenarios=S, epsilon=eps,
                 proba=r.it.new_nd(Nd((S,), lambda k: p(k), 'f')))
    o = r.obj(r.cls(*LB), chance_instance=inst, nb_scenarios=S)
    index = r.it.new_nd(Nd((S,), lambda k: idx(k), 'f'))
    r.canary()
    v = r.call(o, '_get_selected_scenarios', index)
    r.no_raise()
    if r.it.perms:
        r.perm_sum(S, p)
        sig, inv = r.it.perms[-1][1:]
        last = arith('-', S, 1)
        r.lemma('all probabilities', cmp_('==', arith('+', r.sum(last, lambda k: p(sig(k))), p(sig(last))), 1))
    v = r.some('a selection is returned', v)
    L = r.seq(v)
    i, j = r.int('i', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', i, L.n), cmp_('<', j, L.n)))
    r.ensure('scenarios of the instance', b_and(cmp_('<=', 0, L.at(i)), cmp_('<', L.at(i), S)))
    r.ensure('no scenario twice', b_implies(cmp_('==', L.at(i), L.at(j)), cmp_('==', i, j)))
    r.ensure('selected probability', cmp_('>=', r.sum(L.n, lambda k: p(L.at(k))), arith('-', arith('-', 1, eps), TOL)))
    t = r.int('left_out', 0)
    r.assume(cmp_('<', t, S))
    r.assume(b_not(r.exists(L.n, lambda k: cmp_('==', L.at(k), t))))
    r.ensure('no scenario left out ranks before a selected one', cmp_('<=', idx(L.at(i)), idx(t)))


def index(r):
    """rescaled violation of a scenario: the largest normalised violation of its constraints (below 1e-3: none)"""
    X = Inst(r)
    x = r.fn('x', [I], RS)
    o = r.obj(r.cls(*LB), chance_instance=X.ref, nb_scenarios=X.S, projection_method='rescaled_max_violation',
              xUB=r.it.new_nd(Nd((X.n,), lambda j: x(j), 'f')))
    r.canary()
    out = r.call(o, '_get_index_scenarios')
    r.no_raise()
    v = r.nd(out)
    r.ensure('one index per scenario', cmp_('==', v.shape[0], X.S))
    s, i = r.int('s', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, X.S), cmp_('<', i, X.m)))

    def viol(i):
        d = arith('-', X.lhs(s, i, x), X.b(s, i))
        d = ite(cmp_('<', d, Fraction(1, 1000)), Fraction(0), d)
        n = X.norm(s, i)
        return ite(cmp_('==', n, 0), d, arith('/', d, ite(cmp_('==', n, 0), Fraction(1), n)))
    r.ensure('at least the violation of every constraint', cmp_('<=', viol(i), v.at(s)))
    r.ensure('never negative', cmp_('>=', v.at(s), 0))
    r.ensure('zero or the violation of some constraint', b_or(cmp_('==', v.at(s), 0), r.exists(X.m, lambda i: cmp_('==', v.at(s), viol(i)))))


def counter(r):
    S = r.int('S', 1)
    c, f = r.fn('counter', [I], RS), r.fn('now_feasible', [I], RS)
    o = r.obj(r.cls(*LB), nb_scenarios=S, projection_method='counter', feasibility_counter=r.it.new_nd(Nd((S,), lambda k: c(k), 'f')))
    r.canary()
    r.call(o, 'save_feasible_scenarios', r.it.new_nd(Nd((S,), lambda k: f(k), 'f')))
    v = r.nd(r.call(o, '_get_index_scenarios'))
    r.no_raise()
    k = r.int('k', 0)
    r.assume(cmp_('<', k, S))
    r.ensure('one index per scenario', cmp_('==', v.shape[0], S))
    r.ensure('most often satisfied first', cmp_('==', v.at(k), arith('-', 0, arith('+', c(k), f(k)))))


def candidates(r, K=None):
    n = r.int('nb_vars', 1)
    K = K if K is not None else r.int('candidates', 1)
    x = r.fn('candidate', [I, I], RS)
    c = r.fn('c', [I], RS)
    feas = r.fn('chance_feasible', [I], B)
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), nb_vars=n,
                 vector_c=r.it.new_nd(Nd((n,), lambda j: c(j), 'f')))
    # feasibility by the contract of C02: a function of the point
    num = {}

    def which(it, v):
        e = it.lib.nd_of(it, v) if hasattr(it.lib, 'nd_of') else r.nd(v)
        return e
    sols = r.it.new_list(Fn(K, lambda k: Frozen(Nd((n,), lambda j: x(k, j), 'f'), None, 'nd')))
    obj = lambda k: r.sum(n, lambda j: arith('*', x(k, j), c(j)))
    return n, K, x, c, feas, inst, sols, obj


def incumbent(r):
    n, K, x, c, feas, inst, sols, obj = candidates(r)
    vUB, vLB = r.real('vUB'), r.real('vLB')
    q = r.int('candidate_index')

    def is_feasible(it, a, k):
        # the point is one of the candidates: recover which one from its entries
        pt = r.nd([v for v in a if isinstance(v, (Ref, Frozen))][-1])
        e = pt.at(z3.IntVal(0))
        g = e.arg(0) if is_sym(e) and z3.is_app(e) and e.num_args() == 2 else None
        if g is None:
            raise Unsupported("candidate point")
        return (feas(g), r.int('violated', 0), None)
    r.it.summaries['ChanceInstance.is_feasible'] = is_feasible
    r.it.summaries['ChanceKnapInstance.is_feasible'] = is_feasible
    o = r.obj(r.cls(*LB), chance_instance=inst)
    r.canary()
    found, xx, v = r.call(o, 'incumbent_bound', sols, vUB, vLB, verbose=False)
    r.no_raise()
    found = r.it.truth(found)
    g = len(r.ctx.guard)
    EPS = Fraction(1, 10 ** 8)
    good = lambda k: b_and(feas(k), cmp_('<=', obj(k), vUB), cmp_('>=', obj(k), arith('+', vLB, EPS)))
    k = r.int('k', 0)
    r.assume(cmp_('<', k, K))
    if r.it.perms:
        sig, inv = r.it.perms[-1][1:]
        r.lemma('position in the order', b_and(cmp_('==', sig(inv(k)), k), cmp_('<=', 0, inv(k)), cmp_('<', inv(k), K)))
        r.lemma('terms at that position', b_and(cmp_('==', obj(sig(inv(k))), obj(k)), T(feas(sig(inv(k)))) == T(feas(k))))
    r.ensure('none is rejected wrongly', b_implies(good(k), found))
    r.ctx.guard.append(found)
    v = r.some('an objective is returned', v)
    xs = r.nd(r.some('a solution is returned', xx))
    r.ensure('objective above the lower bound', cmp_('>', v, vLB))
    r.ensure('objective not above the upper bound', cmp_('<=', v, vUB))
    r.ensure('the best candidate is taken', b_implies(good(k), cmp_('<=', obj(k), v)))
    j = r.int('j', 0)
    r.assume(cmp_('<', j, n))
    w = r.obtain('it is a chance-feasible candidate', K, lambda k: b_and(feas(k), cmp_('==', obj(k), v), cmp_('==', xs.at(j), x(k, j))))


def projection(r, no_bound=False):
    """_solve_deter_model: the model of the last step becomes that of the selected scenarios; add and remove by the contracts
    of C09; vLB does not decrease from step to step (C16)"""
    D = C09.State(r)
    V = D.V
    K0, L0, mem0, old = C09.distinct(r, V, 'old_scenario')
    K, L, mem, new = C09.distinct(r, V, 'selected')
    s = r.ctx.bound('s')
    r.assume(z3.ForAll([s], D.inc(s) == T(mem0(s)), patterns=[D.inc(s)]))
    prev, cut = r.real('previous_vLB'), r.real('highest_cut')
    vLB = NINF if no_bound else r.real('vLB')
    r.assume(cmp_('<=', cut, prev))
    if not no_bound:
        r.assume(cmp_('<=', prev, vLB))
    X = D.at_pt
    st = dict(inc=D.inc)
    total = lambda inc: r.sum(V.S, lambda s: ite(inc(s), D.broken(s, X), 0))
    if not no_bound:
        grb.put(r.it, D.g, 'bad', arith('+', grb.get(r.it, D.g, 'bad'), ite(cmp_('>=', V.obj(X), cut), 0, 1)))

    def change(add):
        def f(it, a, k):
            Q = seq_of(it.content(a[-1]))
            i, j = r.ctx.fresh('i', I), r.ctx.fresh('j', I)
            r.ctx.assume(b_and(i >= 0, j >= 0, cmp_('<', i, Q.n), cmp_('<', j, Q.n)))
            inc = st['inc']
            r.ctx.pos = 'precondition of ' + ('add' if add else 'remove')
            r.ctx.oblige('no scenario is added twice' if add else 'only included scenarios are removed', T(b_not(inc(Q.at(i)))) if add else inc(Q.at(i)))
            r.ctx.oblige('scenarios exist', b_and(cmp_('<=', 0, Q.at(i)), cmp_('<', Q.at(i), V.S)))
            r.ctx.oblige('no scenario is listed twice', b_implies(cmp_('==', Q.at(i), Q.at(j)), cmp_('==', i, j)))
            m = lambda s: member(r.ctx, Q, s)
            st['inc'] = (lambda s: b_or(inc(s), m(s))) if add else (lambda s: b_and(inc(s), b_not(m(s))))
            grb.put(it, D.g, 'bad', arith('+', grb.get(it, D.g, 'bad'), arith('-', total(st['inc']), total(inc))))
            return None
        return f
    r.it.summaries['DeterModel.add'] = change(True)
    r.it.summaries['DeterModel.remove'] = change(False)
    o = r.obj(r.cls(*LB), chance_instance=V.ref, scenarios=old, previous_vLB=prev, vLB=vLB, deter_model=D.o)
    r.canary()
    s0, i, j = r.int('scenario', 0), r.int('i', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', s0, V.S), cmp_('<', i, V.m(s0)), cmp_('<', j, V.n)))
    x, v = r.call(o, '_solve_deter_model', new)
    r.it.top_raises = []        # interrupted
    inc = st['inc']
    g = list(r.ctx.guard)
    r.ctx.guard[:] = []
    any_s = r.int('any_scenario')
    r.ensure('every selected scenario is in the model', b_implies(mem(any_s), inc(any_s)))
    r.ensure('every scenario of the model is selected', b_implies(inc(any_s), mem(any_s)))
    # any_s is arbitrary
    s = r.ctx.bound('s')
    r.assume(quant(s, True, T(inc(s)) == T(mem(s))))
    r.ctx.guard[:] = g
    now = r.seq(r.fld(o, 'scenarios'))
    q = r.int('q', 0)
    r.ensure('the scenarios of the model are remembered', b_and(cmp_('==', now.n, K), b_implies(cmp_('<', q, K), cmp_('==', now.at(q), L(q)))))
    r.ensure('the lower bound is remembered', cmp_('==', r.fld(o, 'previous_vLB'), vLB))
    # an arbitrary assignment of the model, and the assignment of the solution returned
    y = D.x
    none = r.it.truth(r.it.compare('is', x, None)) if hasattr(r.it, 'compare') else is_none(x)
    bound = True if no_bound else cmp_('>=', V.obj(y), vLB)
    in_inc = lambda s: inc(s)
    f = lambda s: ite(inc(s), D.broken(s, y), 0)
    t = r.nonzero(V.S, f)
    u = r.nonzero(V.m(t), lambda i: ite(cmp_('<=', V.lhs(t, i, y), V.b(t, i)), 0, 1))
    good = b_and(D.dom(y), r.forall(V.S, lambda s: b_implies(mem(s), V.sat(s, y))), bound)
    g = len(r.ctx.guard)
    r.ctx.guard.append(good)
    r.lemma('included in the model: selected', T(inc(t)) == T(mem(t)))
    r.lemma('no constraint of an included scenario is broken by a point that satisfies the selected ones',
            b_or(b_not(b_and(cmp_('<=', 0, t), cmp_('<', t, V.S), inc(t))), cmp_('==', D.broken(t, y), 0)))
    r.lemma('no constraint is broken by it', cmp_('==', r.sum(V.S, f), 0))
    r.ensure('no solution: no point satisfies the selected scenarios and beats the lower bound', b_not(none))
    r.ensure('no point that satisfies the selected scenarios and beats the lower bound is better than the bound', cmp_('<=', V.obj(y), v))
    del r.ctx.guard[g:]
    r.ensure('no solution: a value below every real bound', b_implies(none, cmp_('==', v, -10 ** 6)))
    r.ctx.guard.append(b_not(none))
    sx = strip_none(x)
    Y = r.nd(sx)
    z = lambda j: Y.at(j)
    r.ensure('one value per variable', cmp_('==', Y.shape[0], V.n))
    r.ensure('the solution respects bounds and types', D.dom1(z, j))
    r.ensure('the bound is the objective of the solution', cmp_('==', v, V.obj(z)))
    h = lambda s: ite(inc(s), D.broken(s, z), 0)
    r.term_le(V.S, h, s0)
    r.term_le(V.m(s0), lambda i: ite(cmp_('<=', V.lhs(s0, i, z), V.b(s0, i)), 0, 1), i)
    r.lemma('no constraint of a selected scenario is broken by the solution', b_implies(mem(s0), cmp_('<=', D.broken(s0, z), 0)))
    r.ensure('the solution satisfies every constraint of every selected scenario', b_implies(mem(s0), cmp_('<=', V.lhs(s0, i, z), V.b(s0, i))))


def is_none(v):
    from dv.interp import IteV
    if v is None:
        return True
    if isinstance(v, IteV):
        return b_ite(v.c, is_none(v.a), is_none(v.b))
    return False


def strip_none(v):
    from dv.interp import IteV
    if isinstance(v, IteV):
        a, b = strip_none(v.a), strip_none(v.b)
        return b if a is None else a if b is None else IteV(v.c, a, b)
    return v


def projection_first(r):
    projection(r, True)


def bound_step(r):
    """deterministic_bound: the scenarios handed to the model are those selected for the index of the given point"""
    S = r.int('S', 1)
    n = r.int('n', 1)
    ix = r.fn('index', [I], RS)
    K = r.int('nb_selected', 0)
    L = r.fn('selected', [I], I)
    seen = {}
    pt = r.vec('xUB', n)
    sel = r.it.new_list(Fn(K, lambda k: L(k)))
    res = (r.vec('x', n), r.real('v'))
    index_v = r.it.new_nd(Nd((S,), lambda k: ix(k), 'f'))

    def index(it, a, k):
        seen['x'] = it.getattr(a[0], 'xUB')
        return index_v

    def select(it, a, k):
        seen['index'] = a[-1] if len(a) > 1 else list(k.values())[0]
        return sel

    def solve(it, a, k):
        seen['scen'] = a[-1] if len(a) > 1 else list(k.values())[0]
        return res
    r.it.summaries['LowerBounder._get_index_scenarios'] = index
    r.it.summaries['LowerBounder._get_selected_scenarios'] = select
    r.it.summaries['LowerBounder._solve_deter_model'] = solve
    o = r.obj(r.cls(*LB), nb_scenarios=S, xUB=r.vec('old_xUB', n), scenarios=r.lst('old'))
    r.canary()
    x, v = r.call(o, 'deterministic_bound', pt)
    r.no_raise()
    j, k = r.int('j', 0), r.int('k', 0)
    r.assume(b_and(cmp_('<', j, n), cmp_('<', k, K)))
    same = lambda a, b, j: cmp_('==', r.nd(a).at(j), r.nd(b).at(j))
    r.ensure('index of the given point', 'x' in seen and same(seen['x'], pt, j))
    q = r.int('q', 0)
    r.assume(cmp_('<', q, S))
    r.ensure('selection by that index', 'index' in seen and same(seen['index'], index_v, q))
    sc = r.seq(seen['scen']) if 'scen' in seen else None
    r.ensure('model of the selected scenarios', sc is not None and b_and(cmp_('==', sc.n, K), cmp_('==', sc.at(k), L(k))))
    r.ensure('solution and bound of that model', b_and(same(x, res[0], j), cmp_('==', v, res[1])))


CONTRACTS = [('_get_selected_scenarios', selected), ('_get_scenarios_violation_index', index), ('counter', counter), ('incumbent_bound', incumbent),
             ('deterministic_bound', bound_step), ('_solve_deter_model', projection), ('_solve_deter_model, no lower bound yet', projection_first)]
