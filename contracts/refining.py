"""Shared by C05 and C06: one split of a subset, by contract"""
from dv.spec import *
from dv import hoare, lib, core
from dv.lib import member

inr = lambda x, hi: b_and(cmp_('<=', 0, x), cmp_('<', x, hi))


def refiner(r, name='RandomRefiner', S=None, eps=None, acc=False):
    inst = r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), **{
        k: v for k, v in dict(nb_scenarios=S, epsilon=eps).items() if v is not None})
    return r.it.call(r.cls('src.refiner.' + name, name), [inst], {'use_acc_obj': acc}), inst


def partition_of(r, K, S, tag=''):
    """K lists of scenarios of the instance, none empty, no scenario twice"""
    size, el = r.fn('size' + tag, [I], I), r.fn('scenario' + tag, [I, I], I)
    row, col = r.fn('subset_of' + tag, [I], I), r.fn('place_of' + tag, [I], I)
    q, p = r.ctx.bound('q'), r.ctx.bound('p')
    r.assume(z3.ForAll([q], size(q) >= 1, patterns=[size(q)]))
    r.assume(z3.ForAll([q, p], T(b_implies(b_and(inr(q, K), inr(p, size(q))), b_and(
        inr(el(q, p), S), cmp_('==', row(el(q, p)), q), cmp_('==', col(el(q, p)), p)))), patterns=[el(q, p)]))
    P = r.it.new_list(Fn(K, lambda q: Frozen(Fn(size(IT(q)), lambda p: el(IT(q), IT(p))))))
    return P, size, el


def split(r, after=None):
    """_split_scenarios_subset: for every order of the scenarios of the subset"""
    S, K = r.int('S', 1), r.int('K', 1)
    o, _ = refiner(r, 'RandomRefiner', S)
    it = r.it
    viol = r.fn('violated', [I], B)
    it.setattr(o, 'is_scenario_infeasible', it.new_list(Fn(S, lambda s: viol(IT(s)))))
    P, size, el = partition_of(r, K, S)
    it.setattr(o, 'partition', P)
    c = r.int('c', 0)
    r.assume(cmp_('<', c, K))
    n = size(c)
    # the scenarios in another order
    ordr, rank = r.fn('order', [I], I), r.fn('rank', [I], I)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], T(b_implies(inr(k, n), b_and(inr(ordr(k), n), cmp_('==', rank(ordr(k)), k)))), patterns=[ordr(k)]))
    r.assume(z3.ForAll([k], T(b_implies(inr(k, n), b_and(inr(rank(k), n), cmp_('==', ordr(rank(k)), k)))), patterns=[rank(k)]))
    sc = r.fn('ordered', [I], I)
    r.assume(z3.ForAll([k], sc(k) == el(c, ordr(k)), patterns=[sc(k)]))
    # outside of the subset the values are arbitrary: let them be nonnegative too
    r.assume(z3.ForAll([q0 := r.ctx.bound('q'), k], el(q0, k) >= 0, patterns=[el(q0, k)]))
    r.assume(z3.ForAll([k], sc(k) >= 0, patterns=[sc(k)]))
    core.NONNEG_DECLS.add(sc(k).decl().name())
    r.lemma('scenarios of the instance', z3.ForAll([k], T(b_implies(inr(k, n), inr(sc(k), S))), patterns=[sc(k)]))
    # at least two of them violated
    cnt = lambda f, m=n: r.count(m, lambda p: viol(f(IT(p))))
    r.assume(cmp_('>=', cnt(lambda p: el(c, p)), 2))
    it.perms.append((n, lambda q: ordr(IT(q)), lambda q: rank(IT(q))))
    r.perm_sum(n, lambda p: ite(viol(el(c, IT(p))), 1, 0))
    r.lemma('violated scenarios in the given order', cmp_('==', cnt(lambda p: el(c, p)), cnt(sc)))
    r.canary()
    r.call(o, '_split_scenarios_subset', it.new_list(Fn(n, sc)), c)
    r.no_raise()
    j = r.int('scenario_at', 0)
    r.assume(cmp_('<', j, n))
    Q = r.seq(r.fld(o, 'partition'))
    L, R_ = r.seq(Q.at(c)), r.seq(Q.at(K))
    good = r.count(rank(j), lambda p: b_not(viol(sc(IT(p)))))
    bad = cnt(sc, rank(j))
    nb = cnt(sc)
    half = lambda x: arith('//', x, 2)
    side = lambda V, k: b_and(inr(k, V.n), cmp_('==', V.at(k), el(c, j)))
    dealt = lambda m, l, t: b_ite(cmp_('==', arith('%', m, 2), 0), side(L, arith('+', l, half(m))), side(R_, arith('+', t, half(m))))
    r.lemma('the scenario in the given order', b_and(inr(rank(j), n), cmp_('==', sc(rank(j)), el(c, j))))
    r.lemma('number of scenarios on the left', cmp_('==', L.n, arith('+', half(arith('+', nb, 1)), half(arith('+', arith('-', n, nb), 1)))))
    r.lemma('number of scenarios on the right', cmp_('==', R_.n, arith('+', half(nb), half(arith('-', n, nb)))))
    r.lemma('place of a violated scenario', b_implies(viol(el(c, j)), dealt(bad, 0, 0)))
    r.lemma('place of a scenario that is not violated', b_implies(b_not(viol(el(c, j))), dealt(good, half(arith('+', nb, 1)), half(nb))))
    (after or valid)(r, o, viol, K, c, size, el, j)


def counts(r, o, viol, K, c, size, el, j):
    """violated scenarios on each side; one violated subset more"""
    Q = r.seq(r.fld(o, 'partition'))
    r.ensure('one subset more', cmp_('==', Q.n, arith('+', K, 1)))
    L, R_ = r.seq(Q.at(c)), r.seq(Q.at(K))
    for nm, V in (('left', L), ('right', R_)):
        r.ensure('a violated scenario on the %s' % nm, b_and(cmp_('>=', V.n, 1), viol(IT(V.at(0)))))
    x, p = r.int('other', 0), r.int('p', 0)
    O = r.seq(Q.at(x))
    r.ensure('every other subset stays', b_implies(b_and(inr(x, K), b_not(cmp_('==', x, c))), b_and(
        cmp_('==', O.n, size(x)), b_implies(inr(p, size(x)), cmp_('==', O.at(p), el(x, p))))))


def valid(r, o, viol, K, c, size, el, j):
    """the partition after one split of subset c"""
    it = r.it
    Q = r.seq(r.fld(o, 'partition'))
    r.ensure('one subset more', cmp_('==', Q.n, arith('+', K, 1)))
    n = size(c)
    L, R_ = r.seq(Q.at(c)), r.seq(Q.at(K))
    p, q = r.int('p', 0), r.int('q', 0)
    x = r.int('other', 0)
    O = r.seq(Q.at(x))
    r.ensure('every other subset stays', b_implies(b_and(inr(x, K), b_not(cmp_('==', x, c))), b_and(
        cmp_('==', O.n, size(x)), b_implies(inr(p, size(x)), cmp_('==', O.at(p), el(x, p))))))
    r.ensure('sizes', cmp_('==', arith('+', L.n, R_.n), n))
    old = Fn(n, lambda q: el(c, IT(q)))
    for nm, V in (('left', L), ('right', R_)):
        r.ensure('a violated scenario on the %s' % nm, b_and(cmp_('>=', V.n, 1), viol(IT(V.at(0)))))
        r.ensure('scenarios of the subset on the %s' % nm, b_implies(inr(p, V.n), member(r.ctx, old, V.at(p))))
        r.ensure('no scenario twice on the %s' % nm, b_implies(b_and(inr(p, V.n), inr(q, V.n), cmp_('==', V.at(p), V.at(q))), cmp_('==', p, q)))
    r.ensure('no scenario on both sides', b_implies(b_and(inr(p, L.n), inr(q, R_.n)), cmp_('!=', L.at(p), R_.at(q))))
    r.ensure('every scenario of the subset on a side', b_implies(inr(j, n), b_or(member(r.ctx, L, el(c, j)), member(r.ctx, R_, el(c, j)))))


def violated_list(r, S, viol):
    """the ascending list of the violated scenarios, as check_feasibility stores it"""
    m = r.int('violated', 0)
    v, at = r.fn('violated_scenario', [I], I), r.fn('violated_at', [I], I)
    i = r.ctx.bound('i')
    r.assume(z3.ForAll([i], T(b_implies(inr(i, m), b_and(inr(v(i), S), viol(v(i))))), patterns=[v(i)]))
    r.assume(z3.ForAll([i], T(b_implies(b_and(inr(i, S), viol(i)), b_and(inr(at(i), m), cmp_('==', v(at(i)), i)))), patterns=[viol(i)]))
    return r.it.new_list(Fn(m, lambda k: v(IT(k))))


def counted(r):
    """_find_infeasible_subsets: which subsets contain a violated scenario, and how many of them"""
    S, K = r.int('S', 1), r.int('K', 1)
    o, _ = refiner(r, 'RandomRefiner', S)
    viol = r.fn('violated', [I], B)
    r.it.setattr(o, 'infeasible_scenarios', violated_list(r, S, viol))
    P, size, el = partition_of(r, K, S)
    r.canary()
    out = r.call(o, '_find_infeasible_subsets', P)
    r.no_raise()
    q = r.int('subset', 0)
    r.assume(cmp_('<', q, K))
    good, bad = r.seq(out[0]), r.seq(out[1])
    nb = r.seq(r.fld(o, 'nb_inf_scenarios'))
    r.ensure('one count per subset', cmp_('==', nb.n, K))
    r.ensure('the count is the number of violated scenarios in the subset', cmp_('==', nb.at(q), r.count(size(q), lambda p: viol(el(q, IT(p))))))
    has = r.exists(size(q), lambda p: viol(el(q, IT(p))))
    r.ensure('violated subsets are listed', b_implies(has, b_and(member(r.ctx, bad, q), b_not(member(r.ctx, good, q)))))
    r.ensure('other subsets are listed as feasible', b_implies(b_not(has), b_and(member(r.ctx, good, q), b_not(member(r.ctx, bad, q)))))
    r.ensure('each subset once', cmp_('==', arith('+', good.n, bad.n), K))
    r.ensure('as many as there are', cmp_('==', bad.n, r.count(K, lambda q: cmp_('>', r.count(size(q), lambda p: viol(el(q, IT(p)))), 0))))


def needed(r):
    """_find_number_of_splits_to_perform: allowed number + 1 - number of violated subsets"""
    I_ = Inst(r)
    o = r.it.call(r.cls('src.refiner.RandomRefiner', 'RandomRefiner'), [I_.ref], {'use_acc_obj': r.bool('accurate')})
    nb = r.int('violated_subsets', 0)
    F = r.int('allowed', 0)
    I_.gran(F)
    I_.gran(arith('+', F, 1))
    # largest number of scenarios within epsilon*S
    r.assume(b_and(R(F) <= I_.eps * R(I_.S), R(arith('+', F, 1)) > I_.eps * R(I_.S)))
    r.assume(cmp_('<=', nb, F))
    r.canary()
    mu = r.call(o, '_find_number_of_splits_to_perform', nb)
    r.no_raise()
    r.ensure('number of splits', cmp_('==', mu, arith('-', arith('+', F, 1), nb)))


def split_counts(r):
    split(r, after=counts)


class Part:
    """the partition of a refiner with its ghost state: place of every scenario, origin and status of every subset"""

    def __init__(self, r, o, S, viol, K0):
        self.r, self.o, self.S, self.viol, self.K0 = r, o, S, viol, K0
        it = r.it
        home = r.fn('origin_of', [I], I)            # scenario -> subset of the partition to refine
        self.home = lambda s: home(IT(s))
        self.size0, self.el0 = r.fn('size_before', [I], I), r.fn('scenario_before', [I, I], I)
        q, p = r.ctx.bound('q'), r.ctx.bound('p')
        r.assume(z3.ForAll([q, p], T(b_implies(b_and(inr(q, K0), inr(p, self.size0(q))), cmp_('==', home(self.el0(q, p)), q))), patterns=[self.el0(q, p)]))
        nil = lambda: it.new_list(Fn(0, lambda k: 0))
        self.P, self.row, self.col, self.par, self.bad, self.wit = [nil() for _ in range(6)]
        self.nb = r.int('violated_subsets', 0)
        it.setattr(o, 'partition', self.P)
        self.put('now', K0, self.nb, initial=True)

    def raw(self, ref):
        return self.r.it.st.heap[ref.id]

    def put(self, tag, K, nb, initial=False):
        """arbitrary values of the partition and of the ghost state"""
        r, h = self.r, self.r.it.st.heap
        size, el = r.fn('size_' + tag, [I], I), r.fn('scenario_' + tag, [I, I], I)
        f = {nm: r.fn('%s_%s' % (nm, tag), [I], B if nm == 'bad' else I) for nm in ('row', 'col', 'par', 'bad', 'wit')}
        h[self.P.id] = Fn(K, lambda q: Frozen(Fn(size(IT(q)), lambda p: el(IT(q), IT(p)))))
        for nm in ('row', 'col'):
            h[getattr(self, nm).id] = Fn(self.S, lambda k, g=f[nm]: g(IT(k)))
        for nm in ('par', 'bad', 'wit'):
            h[getattr(self, nm).id] = Fn(K, lambda k, g=f[nm]: g(IT(k)))
        return size, el, f

    def facts(self):
        """the partition is valid and finer than the one before, and the ghost state describes it"""
        r, S = self.r, self.S
        P = r.seq(self.P)
        row, col, par, bad, wit = [self.raw(x) for x in (self.row, self.col, self.par, self.bad, self.wit)]
        q, p, s = r.ctx.bound('q'), r.ctx.bound('p'), r.ctx.bound('s')
        Q = r.seq(P.at(q))
        x = Q.at(p)
        live = b_and(inr(q, P.n), inr(p, Q.n))
        fa = lambda vs, f, pat: z3.ForAll(vs, T(f), patterns=[T(y) for y in pat if pattern_ok(T(y), vs)])
        H = r.seq(P.at(row.at(s)))
        return [
            ('no subset is empty', fa([q], b_implies(inr(q, P.n), cmp_('>=', Q.n, 1)), [Q.n])),
            ('scenarios of the instance', fa([q, p], b_implies(live, inr(x, S)), [x])),
            ('no scenario twice', fa([q, p], b_implies(live, b_and(cmp_('==', row.at(x), q), cmp_('==', col.at(x), p))), [x])),
            ('every scenario in a subset', fa([s], b_implies(inr(s, S), b_and(inr(row.at(s), P.n), inr(col.at(s), H.n), cmp_('==', H.at(col.at(s)), s))), [row.at(s)])),
            ('subsets come from one subset each', fa([q, p], b_implies(live, b_and(inr(par.at(q), self.K0), cmp_('==', self.home(x), par.at(q)))), [x])),
            ('as many lists', b_and(cmp_('==', par.n, P.n), cmp_('==', bad.n, P.n))),
            ('violated subsets contain a violated scenario', fa([q], b_implies(b_and(inr(q, P.n), bad.at(q)), b_and(inr(wit.at(q), Q.n), self.viol(IT(Q.at(wit.at(q)))))), [bad.at(q)])),
            ('other subsets do not', fa([q, p], b_implies(b_and(live, self.viol(IT(x))), bad.at(q)), [x])),
        ]

    def track(self, new, split):
        """lists of the subsets reported as new / split; q0: an arbitrary position"""
        r = self.r
        r.it.setattr(self.o, 'new_subsets', new)
        r.it.setattr(self.o, 'splitted_subsets', split)
        self.q0 = r.int('some_subset', 0)
        self.p0 = r.int('some_place', 0)

    def report(self, tag):
        r, h = self.r, self.r.it.st.heap
        for nm in ('new_subsets', 'splitted_subsets'):
            ref = r.fld(self.o, nm)
            f = r.fn('%s_%s' % (nm, tag), [I], I)
            h[ref.id] = Fn(r.int('reported_' + tag, 0), lambda k, f=f: f(IT(k)))

    def reported(self):
        r, q0, p0 = self.r, self.q0, self.p0
        P = r.seq(self.P)
        Q = r.seq(P.at(q0))
        N = r.seq0(r.fld(self.o, 'new_subsets'))
        new = member(r.ctx, N, q0)
        i, j = r.ctx.bound('i'), r.ctx.bound('j')
        pats = lambda t: [T(t)] if pattern_ok(T(t), [i]) else []
        was = b_and(cmp_('==', Q.n, self.size0(q0)), b_implies(cmp_('<', p0, Q.n), cmp_('==', Q.at(p0), self.el0(q0, p0))))
        return [('a subset not reported as new is as before', b_implies(cmp_('<', q0, self.K0), b_or(new, was))),
                ('an added subset is reported as new', b_implies(b_and(cmp_('<=', self.K0, q0), cmp_('<', q0, P.n)), new)),
                ('subsets keep their position', cmp_('<=', self.K0, P.n)),
                ('reported subsets exist', z3.ForAll([i], T(b_implies(inr(i, N.n), inr(N.at(i), P.n))), patterns=pats(N.at(i)))),
                ('added subsets are reported', z3.ForAll([i], T(b_implies(b_and(cmp_('<=', self.K0, i), cmp_('<', i, P.n)), member(r.ctx, N, i))))),
                ('added subsets are reported in order', z3.ForAll([i, j], T(b_implies(
                    b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, N.n), cmp_('<=', self.K0, N.at(i)), cmp_('<=', self.K0, N.at(j))),
                    cmp_('<', N.at(i), N.at(j))))))]

    def violated_subsets(self):
        return self.r.count(self.raw(self.bad).n, lambda q: self.raw(self.bad).at(q))


def pattern_ok(t, vs):
    if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
        return False
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ):
            return False
        seen.add(x.get_id())
        todo += x.children()
    return all(v.get_id() in seen for v in vs)


def split_stub(W):
    """contract of _split_scenarios_subset (split, counts above)"""
    r = W.r

    def call(it, a, k):
        scen, c = r.seq(a[-2]), a[-1]
        P = r.seq(W.P)
        K = P.n
        r.lemma('subset to split', inr(c, K))
        old = r.seq(P.at(c))
        n = old.n
        sig = it.perms[-1][1] if it.perms else (lambda q: q)
        r.lemma('the scenarios of the subset in some order', b_and(cmp_('==', scen.n, n), r.forall(n, lambda q: cmp_('==', scen.at(q), old.at(sig(q))))))
        r.lemma('at least two violated scenarios', cmp_('>=', r.count(n, lambda p: W.viol(IT(old.at(p)))), 2))
        for nm, f in W.facts():
            r.lemma('before the split: ' + nm, f)
        r.lemma('the subset is violated', T(W.raw(W.bad).at(c)))
        par, bad, wit, row = [W.raw(x) for x in (W.par, W.bad, W.wit, W.row)]
        s = r.ctx.bound('s')
        r.lemma('every scenario comes from the origin of its subset', z3.ForAll([s], T(b_implies(inr(s, W.S), b_and(
            inr(par.at(row.at(s)), W.K0), cmp_('==', W.home(s), par.at(row.at(s)))))), patterns=[T(row.at(s))]))
        nb = W.violated_subsets()
        before = r.count(K, lambda q: bad.at(q))
        r.lemma('one status per subset', cmp_('==', bad.n, K))
        r.lemma('violated subsets before the split', cmp_('==', before, nb))
        size, el, f = W.put('split', arith('+', K, 1), None)
        K, c = IT(K), IT(c)
        q, p = r.ctx.bound('q'), r.ctx.bound('p')
        Q = r.seq(P.at(q))
        fa = lambda vs, g, pat: r.assume(z3.ForAll(vs, T(g), patterns=[pat]))
        other = b_and(inr(q, K), b_not(cmp_('==', q, c)))
        fa([q], b_implies(other, b_and(cmp_('==', size(q), Q.n), cmp_('==', f['wit'](q), wit.at(q)))), size(q))
        fa([q, p], b_implies(b_and(other, inr(p, Q.n)), cmp_('==', el(q, p), Q.at(p))), el(q, p))
        # both sides hold scenarios of the subset, a violated one first
        fa([p], b_implies(inr(p, size(c)), cmp_('==', row.at(el(c, p)), c)), el(c, p))
        fa([p], b_implies(inr(p, size(K)), cmp_('==', row.at(el(K, p)), c)), el(K, p))
        for y in (c, K):
            r.assume(b_and(size(y) >= 1, W.viol(el(y, z3.IntVal(0))), f['wit'](y) == 0))
        # every scenario exactly once
        fa([q, p], b_implies(b_and(inr(q, K + 1), inr(p, size(q))), b_and(inr(el(q, p), W.S), f['row'](el(q, p)) == q, f['col'](el(q, p)) == p)), el(q, p))
        s = r.ctx.bound('s')
        fa([s], b_implies(inr(s, W.S), b_and(inr(f['row'](s), K + 1), inr(f['col'](s), size(f['row'](s))), el(f['row'](s), f['col'](s)) == s)), f['row'](s))
        # ghost state
        fa([q], b_implies(inr(q, K + 1), b_and(cmp_('==', f['par'](q), ite(cmp_('==', q, K), par.at(c), par.at(q))),
                                             T(f['bad'](q)) == T(b_or(cmp_('==', q, K), T(bad.at(q)))))), f['par'](q))
        fa([q], b_implies(inr(q, K + 1), T(f['bad'](q)) == T(b_or(cmp_('==', q, K), T(bad.at(q))))), f['bad'](q))
        rest = r.count(K, lambda q: f['bad'](IT(q)))
        r.lemma('the other subsets keep their status', cmp_('==', rest, before))
        r.lemma('the subset added is violated', cmp_('==', W.violated_subsets(), arith('+', rest, 1)))
        r.lemma('one violated subset more', cmp_('==', W.violated_subsets(), arith('+', nb, 1)))
        for nm, f in W.facts():
            r.lemma('after the split: ' + nm, f)
        return None
    return call


class Traverse(hoare.Spec):
    def __init__(self, W, nb, K, start, order):
        self.W, self.nb, self.K, self.start, self.order = W, nb, K, start, order
        self.P0 = W.r.seq(W.P)

    def havoc(self, it, key, init):
        W = self.W
        if key[0] == 'heap' and key[1] in [x.id for x in (W.P, W.row, W.col, W.par, W.bad, W.wit)]:
            return self.fresh(key[1])
        return NotImplemented

    def fresh(self, i):
        r, W = self.W.r, self.W
        if i == W.P.id:
            size, el = r.fn('size_loop', [I], I), r.fn('scenario_loop', [I, I], I)
            return Fn(r.int('subsets_loop', 0), lambda q: Frozen(Fn(size(IT(q)), lambda p: el(IT(q), IT(p)))))
        g = r.fn('ghost_loop', [I], B if i == W.bad.id else I)
        return Fn(W.S if i in (W.row.id, W.col.id) else r.int('subsets_loop', 0), lambda k: g(IT(k)))

    def inv(self, it, k):
        W, r = self.W, self.W.r
        P = r.seq(W.P)
        mc, mu = r.fld(W.o, 'mu_counter'), r.fld(W.o, 'mu')
        done = arith('-', mc, self.start)
        i, p = r.ctx.bound('i'), r.ctx.bound('p')
        c = self.order(i)
        Q, Q0 = r.seq(P.at(c)), r.seq(self.P0.at(c))
        return [
            ('splits counted', b_and(cmp_('<=', self.start, mc), cmp_('<=', mc, mu))),
            ('one subset more per split', cmp_('==', P.n, arith('+', self.K, done))),
            ('one violated subset more per split', cmp_('==', W.violated_subsets(), arith('+', self.nb, done))),
            ('subsets not yet visited stay', z3.ForAll([i], T(b_implies(b_and(cmp_('<=', k, i), cmp_('<', i, self.K)), cmp_('==', Q.n, Q0.n))), patterns=[self.order(i)])),
            ('scenarios of subsets not yet visited stay', z3.ForAll([i, p], T(b_implies(b_and(cmp_('<=', k, i), cmp_('<', i, self.K), inr(p, Q0.n)), cmp_('==', Q.at(p), Q0.at(p)))), patterns=[T(Q0.at(p))])),
        ] + W.facts() + W.reported()


def traverse(r):
    """_traverse_subsets_and_split: some of the subsets with at least two violated scenarios are split"""
    S, K = r.int('S', 1), r.int('K', 1)
    o, _ = refiner(r, 'RandomRefiner', S)
    it = r.it
    viol = r.fn('violated', [I], B)
    K0 = r.int('subsets_before', 1)
    r.assume(cmp_('<=', K0, K))
    W = Part(r, o, S, viol, K0)
    size, el, f = W.put('now', K, None)
    for nm, g in W.facts():
        r.assume(g)
    nb = W.violated_subsets()
    W.track(r.lst('new_subset'), r.lst('splitted_subset'))
    for nm, g in W.reported():
        r.assume(g)
    it.setattr(o, 'infeasible_scenarios', r.lst('infeasible'))
    it.setattr(o, 'is_scenario_infeasible', r.lst('flag'))
    mu, mc = r.int('mu'), r.int('mu_counter')
    r.assume(cmp_('<=', mc, mu))
    it.setattr(o, 'mu', mu)
    it.setattr(o, 'mu_counter', mc)
    ordr, rank = r.fn('order', [I], I), r.fn('rank', [I], I)
    k = r.ctx.bound('k')
    r.assume(z3.ForAll([k], T(b_implies(inr(k, K), b_and(inr(ordr(k), K), cmp_('==', rank(ordr(k)), k)))), patterns=[ordr(k)]))
    cnt = lambda q: r.count(size(q), lambda p: viol(el(IT(q), IT(p))))
    it.summaries['RandomRefiner._count_infeasible_scenarios'] = lambda it, a, k: it.new_list(Fn(K, lambda q: cnt(IT(q))))
    it.summaries['RandomRefiner._split_scenarios_subset'] = split_stub(W)
    it.summaries['Refiner._count_infeasible_scenarios'] = it.summaries['RandomRefiner._count_infeasible_scenarios']
    it.summaries['Refiner._split_scenarios_subset'] = split_stub(W)
    it.loop_spec = lambda it, st, seq: None if seq is None or isinstance(seq, Lit) else Traverse(W, nb, K, mc, lambda i: ordr(IT(i)))
    r.canary()
    r.call(o, '_traverse_subsets_and_split', it.new_list(Fn(K, lambda q: ordr(IT(q)))))
    r.no_raise()
    for nm, g in W.facts() + W.reported():
        r.ensure(nm, g)
    done = arith('-', r.fld(o, 'mu_counter'), mc)
    r.ensure('never more than needed', cmp_('<=', r.fld(o, 'mu_counter'), mu))
    r.ensure('one subset more per split', cmp_('==', r.seq(W.P).n, arith('+', K, done)))
    r.ensure('one violated subset more per split', cmp_('==', W.violated_subsets(), arith('+', nb, done)))


def traverse_stub(W):
    """contract of _traverse_subsets_and_split (traverse above)"""
    r = W.r

    def call(it, a, k):
        seq = r.seq(a[-1])
        P = r.seq(W.P)
        K, nb = P.n, W.violated_subsets()
        mc, mu = r.fld(W.o, 'mu_counter'), r.fld(W.o, 'mu')
        i, j = r.ctx.bound('i'), r.ctx.bound('j')
        r.lemma('every subset is visited once', b_and(cmp_('==', seq.n, K), r.forall(K, lambda i: inr(seq.at(i), K)),
                z3.ForAll([i, j], T(b_implies(b_and(inr(i, K), inr(j, K), cmp_('==', seq.at(i), seq.at(j))), cmp_('==', i, j))))))
        for nm, f in W.facts() + W.reported():
            r.lemma('before: ' + nm, f)
        r.lemma('splits counted', cmp_('<=', mc, mu))
        done = r.int('splits', 0)
        r.assume(cmp_('<=', arith('+', mc, done), mu))
        W.put('visited', arith('+', K, done), None)
        W.report('visited')
        it.setattr(W.o, 'mu_counter', arith('+', mc, done))
        for nm, f in W.facts() + W.reported():
            r.assume(f)
        r.assume(cmp_('==', W.violated_subsets(), arith('+', nb, done)))
    return call


class Rounds(Traverse):
    """while loop: rounds over all subsets"""

    def inv(self, it, k):
        W, r = self.W, self.W.r
        P = r.seq(W.P)
        mc, mu = r.fld(W.o, 'mu_counter'), r.fld(W.o, 'mu')
        done = arith('-', mc, self.start)
        return [
            ('splits counted', b_and(cmp_('<=', self.start, mc), cmp_('<=', mc, mu))),
            ('one subset more per split', cmp_('==', P.n, arith('+', self.K, done))),
            ('one violated subset more per split', cmp_('==', W.violated_subsets(), arith('+', self.nb, done))),
        ] + W.facts() + W.reported()


def rounds(r):
    """_split_top_mu_subset: exactly mu splits (ways of ordering scenarios and subsets: random)"""
    S, K = r.int('S', 1), r.int('K', 1)
    o, _ = refiner(r, 'RandomRefiner', S)
    it = r.it
    viol = r.fn('violated', [I], B)
    W = Part(r, o, S, viol, K)
    W.put('now', K, None)
    W.track(r.lst('new_subset'), r.lst('splitted_subset'))
    for nm, g in W.facts() + W.reported():
        r.assume(g)
    nb = W.violated_subsets()
    mu = r.int('mu', 0)
    it.setattr(o, 'mu', mu)
    for cl in ('RandomRefiner', 'Refiner'):
        it.summaries[cl + '._traverse_subsets_and_split'] = traverse_stub(W)
    it.loop_spec = lambda it, st, seq: Rounds(W, nb, K, 0, None) if seq is None else None
    r.canary()
    r.call(o, '_split_top_mu_subset')
    r.no_raise()
    for nm, g in W.facts() + W.reported():
        r.ensure(nm, g)
    r.ensure('as many splits as needed', cmp_('==', r.fld(o, 'mu_counter'), mu))
    r.ensure('one subset more per split', cmp_('==', r.seq(W.P).n, arith('+', K, mu)))
    r.ensure('one violated subset more per split', cmp_('==', W.violated_subsets(), arith('+', nb, mu)))


def rounds_stub(W, mu_of):
    """contract of _split_top_mu_subset (rounds above)"""
    r = W.r

    def call(it, a, k):
        W.P = r.fld(W.o, 'partition')
        P = r.seq(W.P)
        K, nb = P.n, W.violated_subsets()
        mu = r.fld(W.o, 'mu')
        r.lemma('number of splits', b_and(cmp_('<=', 0, mu), cmp_('==', K, W.K0)))
        for nm, f in W.facts() + W.reported():
            r.lemma('before the splits: ' + nm, f)
        W.put('after', arith('+', K, mu), None)
        W.report('after')
        it.setattr(W.o, 'mu_counter', mu)
        for nm, f in W.facts() + W.reported():
            r.assume(f)
        r.assume(cmp_('==', W.violated_subsets(), arith('+', nb, mu)))
    return call


def refined(r):
    """refine: the pieces together"""
    S, K = r.int('S', 1), r.int('K', 1)
    o, ci = refiner(r, 'RandomRefiner', S)
    it = r.it
    viol = r.fn('violated', [I], B)
    W = Part(r, o, S, viol, K)
    size, el, f = W.put('given', K, None)
    q, p, s = r.ctx.bound('q'), r.ctx.bound('p'), r.ctx.bound('s')
    for nm, g in W.facts():
        r.assume(g)
    # the partition given is the one to refine: every subset comes from itself
    r.assume(z3.ForAll([q], W.size0(q) == size(q), patterns=[W.size0(q)]))
    r.assume(z3.ForAll([q, p], W.el0(q, p) == el(q, p), patterns=[W.el0(q, p)]))
    nb = W.violated_subsets()
    W.q0, W.p0 = r.int('some_subset', 0), r.int('some_place', 0)
    given = W.P
    it.setattr(o, 'partition', r.lst('stale_partition'))
    fl = it.new_list(Fn(S, lambda s: viol(IT(s))))
    vl = violated_list(r, S, viol)
    for nm, v in (('is_scenario_infeasible', fl), ('infeasible_scenarios', vl), ('max_infeasibility_scenarios', r.vec('largest', S))):
        it.setattr(ci, nm, v)
    F = r.int('allowed', 0)
    r.assume(cmp_('<=', nb, F))

    def find(it, a, k):
        """contract of _find_infeasible_subsets (counted above)"""
        P = r.seq(a[-1])
        r.lemma('violated scenarios as read from the instance', b_and(
            r.fld(o, 'is_scenario_infeasible') is fl, r.fld(o, 'infeasible_scenarios') is vl))
        find.n += 1
        tag = str(find.n)
        bad = W.raw(W.bad)
        W.P, was = a[-1], W.P
        for nm, g in W.facts():
            r.lemma('%s (list %s)' % (nm, tag), g)
        W.P = was
        lists = []
        for nm, want in (('feasible', False), ('infeasible', True)):
            n, at, pos = r.int(nm + '_subsets' + tag, 0), r.fn(nm + '_subset' + tag, [I], I), r.fn(nm + '_at' + tag, [I], I)
            cond = lambda c, want=want: T(bad.at(c)) if want else T(b_not(bad.at(c)))
            r.assume(z3.ForAll([q], T(b_implies(inr(q, n), b_and(inr(at(q), P.n), cond(at(q))))), patterns=[at(q)]))
            r.assume(z3.ForAll([q], T(b_implies(b_and(inr(q, P.n), cond(q)), b_and(inr(pos(q), n), cmp_('==', at(pos(q)), q)))), patterns=[pos(q)]))
            lists.append(it.new_list(Fn(n, lambda k, at=at: at(IT(k)))))
            find.pos = pos
            find.last.append(pos)
        r.assume(cmp_('==', it.content(lists[1]).n, W.violated_subsets()))
        return tuple(lists)
    find.n, find.last = 0, []

    def number(it, a, k):
        """contract of _find_number_of_splits_to_perform (needed above)"""
        r.lemma('not more violated subsets than allowed', cmp_('<=', a[-1], F))
        return arith('-', arith('+', F, 1), a[-1])

    def once(it, a, k):
        """contract of _assert_all_scenarios_used_once"""
        r.lemma('checked partition', a[-1] is W.P)
        for nm, g in W.facts():
            r.lemma('checked: ' + nm, g)
    for cl in ('RandomRefiner', 'Refiner'):
        it.summaries[cl + '._find_infeasible_subsets'] = find
        it.summaries[cl + '._find_number_of_splits_to_perform'] = number
        it.summaries[cl + '._split_top_mu_subset'] = rounds_stub(W, None)
        it.summaries[cl + '._assert_all_scenarios_used_once'] = once
    r.canary()
    out = r.call(o, 'refine', given, r.vec('x', r.int('n', 1)))
    r.no_raise()
    G = r.seq(given)
    N = r.seq(out[1])
    mu = arith('-', arith('+', F, 1), nb)
    r.ensure("the caller's partition keeps its length", cmp_('==', G.n, K))
    a, b = r.int('any_subset', 0), r.int('any_place', 0)
    r.ensure("the caller's partition is not modified", b_implies(cmp_('<', a, K), b_and(
        cmp_('==', r.seq(G.at(a)).n, size(a)), b_implies(cmp_('<', b, size(a)), cmp_('==', r.seq(G.at(a)).at(b), el(a, b))))))
    r.ensure('the result is not the object given', out[1] is not given)
    r.ensure('result is the partition of the refiner', out[1] is W.P and r.fld(o, 'partition') is W.P)
    r.ensure('number of subsets', b_and(cmp_('==', out[0], N.n), cmp_('==', N.n, arith('+', K, mu))))
    for nm, g in W.facts() + W.reported():
        r.ensure(nm, g)
    good, bad = r.seq(r.fld(o, 'feasible_subsets')), r.seq(r.fld(o, 'infeasible_subsets'))
    r.ensure('one violated subset more than allowed', b_and(cmp_('==', W.violated_subsets(), arith('+', F, 1)), cmp_('==', bad.n, arith('+', F, 1))))
    c = r.int('subset', 0)
    r.assume(cmp_('<', c, N.n))
    st = W.raw(W.bad).at(c)
    at = lambda V, g: b_and(inr(g(IT(c)), V.n), cmp_('==', V.at(g(IT(c))), c))
    r.ensure('violated subsets are listed', b_implies(st, b_and(at(bad, find.last[-1]), b_not(member(r.ctx, good, c)))))
    r.ensure('other subsets are listed as feasible', b_implies(b_not(st), b_and(at(good, find.last[-2]), b_not(member(r.ctx, bad, c)))))


def used_once(r):
    """_assert_all_scenarios_used_once: no assertion fires on a valid partition"""
    S, K = r.int('S', 1), r.int('K', 1)
    o, _ = refiner(r, 'RandomRefiner', S)
    W = Part(r, o, S, r.fn('violated', [I], B), K)
    size, el, f = W.put('given', K, None)
    for nm, g in W.facts():
        r.assume(g)
    # as many places as scenarios (lemmas/Sums.lean)
    r.assume(cmp_('==', r.sum(K, lambda q: size(IT(q))), S))
    r.canary()
    r.call(o, '_assert_all_scenarios_used_once', W.P)
    r.no_raise()
