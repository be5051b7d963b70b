"""C08: costs and solutions follow the partition; when and what is merged.

A subset is a token: only which subset stands where matters here."""
from dv.spec import *
from dv import hoare, lib
from dv.lib import member
from contracts import ghost, C07

inr = lambda x, hi: b_and(cmp_('<=', 0, x), cmp_('<', x, hi))
AP = ('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')


class World:
    """an adaptive partitioner whose costs and solutions match its partition"""

    def __init__(self, r):
        self.r = r
        it = r.it
        cv, ok = r.fn('cost_of', [I], RS), r.fn('solves', [I, I], B)
        # cost and solution of a subset
        self.good = lambda t, c, x: b_and(cmp_('==', c, cv(IT(t))), ok(IT(t), IT(x)))
        self.cv, self.ok = cv, ok
        self.K = K = r.int('nb_subsets', 1)
        self.P0 = P0 = r.fn('subset', [I], I)
        c0, x0 = r.fn('cost', [I], RS), r.fn('sol', [I], I)
        self.c0, self.x0 = c0, x0
        q = r.ctx.bound('q')
        r.assume(z3.ForAll([q], T(b_implies(inr(q, K), self.good(P0(q), c0(q), x0(q)))), patterns=[c0(q)]))
        r.assume(z3.ForAll([q], T(b_implies(inr(q, K), self.good(P0(q), c0(q), x0(q)))), patterns=[x0(q)]))
        self.P = it.new_list(Fn(K, lambda q: P0(IT(q))))
        self.costs, self.sols = it.new_list(Fn(K, lambda q: c0(IT(q)))), it.new_list(Fn(K, lambda q: x0(IT(q))))
        self.loaded = []
        part = r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'))
        self.refiner = r.obj(r.cls('src.refiner.Refiner', 'Refiner'))
        self.merger = r.obj(r.cls('src.Merger', 'Merger'), deleted_subsets=r.lst('stale'), target_subsets=r.lst('stale_targets'))
        self.vub = r.real('vUB')
        self.o = r.obj(r.cls(*AP), refiner=self.refiner, merger=self.merger, evaluator=r.obj(r.cls('src.Evaluator', 'Evaluator')),
                       partition=self.P, nb_subsets=K, minimum_partition_size=r.int('minimum_partition_size', 1), subset_costs=self.costs,
                       subset_sols=self.sols, did_merge=r.bool('did_merge'), chance_instance_part=part, vLB=r.real('vLB'), vUB=self.vub,
                       xLB=r.int('xLB'), xUB=r.int('xUB'))
        self.q0, self.p0 = r.int('some_subset', 0), r.int('some_new', 0)
        S = it.summaries
        S['PartitionChanceKnapInstance.load_partition'] = lambda it, a, k: self.load(a[-2], a[-1])
        S['Evaluator.subset_cost'] = lambda it, a, k: self.evaluate(a[-1])
        self.improved = []
        S['AdaptivePartitioner._improve_vlb_with_candidate_sols'] = lambda it, a, k: self.improved.append(a[1])

    def load(self, n, P):
        self.loaded.append((n, P, self.r.named(self.r.seq(P), 'loaded')))

    def evaluate(self, t):
        """contract of Evaluator.subset_cost (C09): the cost of the subset and a solution that attains it"""
        r = self.r
        c, x = r.real('subset_cost'), r.int('subset_sol')
        r.ctx.assume(self.good(t, c, x))
        return c, x

    def consistent(self):
        r, o, q = self.r, self.o, self.q0
        P, C, X = [r.seq(r.fld(o, f)) for f in ('partition', 'subset_costs', 'subset_sols')]
        n = r.fld(o, 'nb_subsets')
        r.ensure('number of subsets', cmp_('==', n, P.n))
        r.ensure('one cost per subset', cmp_('==', C.n, P.n))
        r.ensure('one solution per subset', cmp_('==', X.n, P.n))
        r.assume(cmp_('<', q, P.n))
        r.ensure('stored cost and solution are those of the subset', self.good(P.at(q), C.at(q), X.at(q)))
        r.ensure('the partition is loaded', bool(self.loaded))
        if self.loaded:
            n, ref, L = self.loaded[-1]
            r.ensure('the partition loaded is the current one', b_and(cmp_('==', n, P.n), cmp_('==', L.n, P.n), cmp_('==', L.at(q), P.at(q))))


class Update(hoare.Spec):
    """costs of the subsets reported as new"""

    def __init__(self, W, K1, P1, N):
        self.W, self.K1, self.P1, self.N = W, K1, P1, N
        self.p0 = W.p0

    def returned(self, it, k):
        """the list returned by the function holds one cost for each subset seen"""
        import ast
        for fr in it.frames[::-1]:
            names = {x.value.id for x in ast.walk(fr.func.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
            if names:
                break
        for nm in names:
            v = it.st.env.get(nm)
            if isinstance(v, Ref) and v.kind == 'list':
                r, W = self.W.r, self.W
                V = r.seq0(v)
                p = self.p0
                yield 'one cost returned per subset seen', cmp_('==', V.n, k)
                if not isinstance(V, Lit):
                    yield 'costs returned are those of the subsets', b_implies(inr(p, k), cmp_('==', V.at(p), W.cv(IT(self.P1(IT(self.N.at(p)))))))

    def inv(self, it, k):
        W, r, N = self.W, self.W.r, self.N
        q = W.q0
        C, X = r.seq(r.fld(W.o, 'subset_costs')), r.seq(r.fld(W.o, 'subset_sols'))
        i = r.ctx.bound('i')
        left = r.ctx.exists(arith('-', N.n, k), lambda j: cmp_('==', N.at(arith('+', k, j)), q))
        out = [(nm, f) for nm, f in self.returned(it, k)]
        return out + [
            ('as many solutions as costs', cmp_('==', C.n, X.n)),
            ('number of costs', b_and(cmp_('<=', W.K, C.n), cmp_('<=', C.n, self.K1))),
            ('subsets seen have a cost', z3.ForAll([i], T(b_implies(inr(i, k), cmp_('<', N.at(i), C.n))), patterns=[T(N.at(i))])),
            ('subsets to come are known or next', z3.ForAll([i], T(b_implies(b_and(cmp_('<=', k, i), cmp_('<', i, N.n), cmp_('<=', W.K, N.at(i))), cmp_('>=', N.at(i), C.n))), patterns=[T(N.at(i))])),
            ('costs and solutions match unless still to come', b_implies(cmp_('<', q, C.n), b_or(W.good(self.P1(IT(q)), C.at(q), X.at(q)), left))),
        ]


def split(r):
    """_split: every subset reported as new is evaluated, the others keep their cost"""
    W = World(r)
    o, K = W.o, W.K
    K1, P1 = r.int('nb_subsets_after', 1), r.fn('subset_after', [I], I)
    m, nw = r.int('nb_new', 0), r.fn('new', [I], I)
    i, j, q = r.ctx.bound('i'), r.ctx.bound('j'), r.ctx.bound('q')
    N = Fn(m, lambda k: nw(IT(k)))
    x = r.int('point')

    def refine(it, a, k):
        """contract of refine (C05)"""
        r.lemma('the current partition is refined', a[-2] is W.P and a[-1] is x)
        r.assume(cmp_('<=', K, K1))
        r.assume(z3.ForAll([i], T(b_implies(inr(i, m), inr(nw(i), K1))), patterns=[nw(i)]))
        at = r.fn('reported_at', [I], I)
        r.assume(z3.ForAll([q], T(b_implies(b_and(cmp_('<=', K, q), cmp_('<', q, K1)), b_and(inr(at(q), m), cmp_('==', nw(at(q)), q)))), patterns=[at(q)]))
        r.assume(z3.ForAll([q], T(b_implies(b_and(cmp_('<=', K, q), cmp_('<', q, K1)), b_and(inr(at(q), m), cmp_('==', nw(at(q)), q)))), patterns=[P1(q)]))
        r.assume(z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, m), cmp_('<=', K, nw(i)), cmp_('<=', K, nw(j))), cmp_('<', nw(i), nw(j)))), patterns=[z3.MultiPattern(nw(i), nw(j))]))
        r.assume(z3.ForAll([q], T(b_implies(inr(q, K), b_or(r.ctx.exists(m, lambda i: cmp_('==', nw(IT(i)), q)), cmp_('==', P1(q), W.P0(q))))), patterns=[P1(q)]))
        W.next = lambda n: b_implies(b_and(cmp_('<=', K, n), cmp_('<', n, K1)), b_and(inr(at(IT(n)), m), cmp_('==', nw(at(IT(n))), n)))
        it.setattr(W.refiner, 'new_subsets', it.new_list(N))
        it.setattr(W.refiner, 'partition', it.new_list(Fn(K1, lambda q: P1(IT(q)))))
        return (K1, it.getattr(W.refiner, 'partition'))
    S = r.it.summaries
    S['Refiner.refine'] = refine
    stores = []

    def loops(it, st, seq):
        if seq is None:
            return None
        if r.fld(o, 'subset_costs') is not None and seq.n is m and stores_costs(r, o, st):
            return Update(W, K1, P1, N)
        return None
    r.it.loop_spec = loops
    r.canary()
    out = r.call(o, '_split', x)
    r.no_raise()
    r.ensure('the refiner knows bound and costs', b_and(cmp_('==', r.fld(W.refiner, 'vUB'), W.vub), r.fld(W.refiner, 'subset_costs') is W.costs))
    W.consistent()
    V = r.seq(out)
    r.ensure('costs of the new subsets are returned', cmp_('==', V.n, m))
    p = W.p0
    r.ensure('each is the cost of its subset', b_implies(cmp_('<', p, m), cmp_('==', V.at(p), W.cv(P1(nw(p))))))


def stores_costs(r, o, st, depth=3):
    """the loop changes the stored costs, itself or in a method it calls"""
    import ast
    seen = {x.attr for x in ast.walk(st) if isinstance(x, ast.Attribute)}
    if {'subset_costs', 'subset_sols'} <= seen:
        return True
    cls = r.it.st.heap[o.id].cls
    for x in ast.walk(st) if depth else ():
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            f = cls.lookup(x.func.attr)[0]
            node = getattr(getattr(f, 'func', f), 'node', None)
            if node is not None and 'AdaptivePartitioner.' + x.func.attr not in r.it.summaries and stores_costs(r, o, node, depth - 1):
                return True
    return False


def merge(r):
    """_merge: whether and how subsets are merged"""
    W = World(r)
    o = W.o
    m = r.int('nb_new', 1)
    nc = r.fn('new_cost', [I], RS)
    use = r.bool('use_merger')
    nf, mu = r.int('nb_feasible', 0), r.int('mu', 1)
    ff = r.fn('feasible', [I], I)
    r.it.setattr(W.refiner, 'feasible_subsets', r.it.new_list(Fn(nf, lambda k: ff(IT(k)))))
    r.it.setattr(W.refiner, 'mu', mu)
    # the number of subsets after the split: mu + feasible subsets before >= mu (C06)
    r.assume(cmp_('>=', nf, mu))
    x = r.int('point')
    heap = r.it.st.heap
    calls = []

    def count(kind):
        def call(it, a, k):
            a = list(a)[1:] + list(k.values())
            fs = r.seq(a[0])
            same = b_and(cmp_('==', fs.n, nf), r.forall(nf, lambda q: cmp_('==', fs.at(q), ff(IT(q)))))
            calls.append(kind)
            it.st.heap['merged_' + kind] = arith('+', it.st.heap['merged_' + kind], 1)
            r.lemma('all feasible subsets are handed over (%s)' % kind, same)
            if kind == 'mu':
                r.lemma('the last solution is handed over', a[1] is x)
            it.setattr(o, 'did_merge', True)
        return call
    heap['merged_all'] = heap['merged_mu'] = 0
    S = r.it.summaries
    S['AdaptivePartitioner._merge_all_feasible_subsets'] = count('all')
    S['AdaptivePartitioner._merge_mu_plus_one_feasible'] = count('mu')
    r.canary()
    r.call(o, '_merge', x, r.it.new_list(Fn(m, lambda k: nc(IT(k)))), use)
    r.no_raise()
    cheap = r.forall(m, lambda k: cmp_('<=', nc(IT(k)), W.vub))
    na, nm = r.it.st.heap['merged_all'], r.it.st.heap['merged_mu']
    want = b_and(use, cheap)
    r.ensure('all feasible subsets with an infeasible one: if requested, cheap enough, and mu are feasible', cmp_('==', na, ite(b_and(want, cmp_('==', nf, mu)), 1, 0)))
    r.ensure('mu + 1 feasible subsets: if requested, cheap enough, and more than mu are feasible', cmp_('==', nm, ite(b_and(want, cmp_('>', nf, mu)), 1, 0)))
    r.ensure('merged or not', T(r.fld(o, 'did_merge')) == T(want))
    dl = r.seq0(r.fld(W.merger, 'deleted_subsets'))
    r.ensure('no deletions remembered without a merge', b_implies(b_not(want), cmp_('==', dl.n, 0)))
    same(r, W)


def same(r, W):
    o = W.o
    P, C, X = [r.seq(r.fld(o, f)) for f in ('partition', 'subset_costs', 'subset_sols')]
    q = W.q0
    r.ensure('sizes are not touched', b_and(cmp_('==', P.n, W.K), cmp_('==', C.n, W.K), cmp_('==', X.n, W.K), cmp_('==', r.fld(o, 'nb_subsets'), W.K)))
    r.ensure('partition, costs and solutions are not touched', b_implies(cmp_('<', q, W.K), b_and(
        cmp_('==', P.at(q), W.P0(q)), cmp_('==', C.at(q), W.c0(q)), cmp_('==', X.at(q), W.x0(q)))))


def merge_all(r):
    """_merge_all_feasible_subsets: the feasible subsets and the most expensive of the others"""
    W = World(r)
    o, K = W.o, W.K
    nf = r.int('nb_feasible', 1)
    ff = r.fn('feasible', [I], I)
    i = r.ctx.bound('i')
    r.assume(z3.ForAll([i], T(b_implies(inr(i, nf), inr(ff(i), K))), patterns=[ff(i)]))
    F = Fn(nf, lambda k: ff(IT(k)))
    w0 = r.int('not_feasible', 0)
    r.assume(b_and(cmp_('<', w0, K), b_not(member(r.ctx, F, w0))))
    fl = r.it.new_list(F)
    got = []

    def merged(it, a, k):
        got.append((a[-2], r.named(r.seq(a[-1]), 'merged')))
        m, p = r.int('subsets_left', 1), r.fn('subset_left', [I], I)
        it.setattr(o, 'minimum_partition_size', m)
        W.result = it.new_list(Fn(m, lambda q: p(IT(q))))
        return (W.result, m)
    S = r.it.summaries
    S['Merger.merge_all'] = merged
    S['Merger.sort_subset_costs'] = sorted_costs(r, W.q0)
    S['AdaptivePartitioner._post_merge_processing'] = lambda it, a, k: got.append('post')
    r.canary()
    r.call(o, '_merge_all_feasible_subsets', fl)
    r.no_raise()
    r.ensure('merged once, in the current partition, then processed', len(got) == 2 and got[1] == 'post' and got[0][0] is W.P)
    M = got[0][1]
    r.ensure('one subset more than the feasible ones', cmp_('==', M.n, arith('+', nf, 1)))
    p = r.int('some_position', 0)
    r.ensure('all feasible subsets', b_implies(cmp_('<', p, nf), cmp_('==', M.at(p), ff(p))))
    t = M.at(nf)
    r.ensure('one that is not feasible', b_and(inr(t, K), b_not(member(r.ctx, F, t))))
    q = W.q0
    r.ensure('the most expensive one', b_or(b_not(cmp_('<', q, K)), member(r.ctx, F, q), cmp_('<=', W.c0(q), W.c0(IT(t)))))
    r.ensure('the result is the partition', r.fld(o, 'partition') is W.result)
    r.ensure('recorded', T(r.fld(o, 'did_merge')) == True)


def sorted_costs(r, q=None):
    """contract of Merger.sort_subset_costs (proved below): the candidates in decreasing order of their cost"""
    def call(it, a, k):
        C, V = it.iter_seq(a[-2]), r.seq(a[-1])
        n = C.n
        r.lemma('one cost per candidate', cmp_('==', n, V.n))
        sg, inv = r.fn('by_cost', [I], I), r.fn('rank', [I], I)
        i, j = r.ctx.bound('i'), r.ctx.bound('j')
        r.assume(z3.ForAll([i], T(b_implies(inr(i, n), b_and(inr(sg(i), n), cmp_('==', inv(sg(i)), i)))), patterns=[sg(i)]))
        r.assume(z3.ForAll([i], T(b_implies(inr(i, n), b_and(inr(inv(i), n), cmp_('==', sg(inv(i)), i)))), patterns=[inv(i)]))
        r.assume(z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, n)), cmp_('>=', V.at(sg(i)), V.at(sg(j))))), patterns=[z3.MultiPattern(sg(i), sg(j))]))
        if q is not None:       # the instance for one position
            r.assume(b_implies(inr(q, n), b_and(inr(inv(q), n), cmp_('==', sg(inv(q)), q))))
        return it.new_list(Fn(n, lambda q: C.at(sg(IT(q)))))
    return call


class Forget(hoare.Spec):
    """costs and solutions of the deleted subsets are forgotten: q positions deleted"""

    def __init__(self, W, seq):
        r = W.r
        self.W, d = W, W.d
        r.lemma('deleted subsets are forgotten once each', cmp_('==', seq.n, W.L))
        d2 = r.fn('forgotten', [I], I)
        i, j = r.ctx.bound('i'), r.ctx.bound('j')
        r.assume(z3.ForAll([i], T(cmp_('==', d2(i), seq.at(i))), patterns=[d2(i)]))
        if not r.it.perms:
            return r.lemma('positions forgotten in descending order', False)
        inv = r.it.perms[-1][2]
        b = r.fn('where', [I], I)
        r.assume(z3.ForAll([i], T(cmp_('==', b(i), inv(W.rank(i)))), patterns=[d(i)]))
        for nm, f in [('positions forgotten descend', z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, W.L)), cmp_('>', d2(i), d2(j)))), patterns=[z3.MultiPattern(d2(i), d2(j))])),
                      ('positions forgotten are deleted', z3.ForAll([i], T(b_implies(inr(i, W.L), r.ctx.exists(W.L, lambda j: cmp_('==', d(j), d2(i))))), patterns=[d2(i)])),
                      ('deleted positions are forgotten', z3.ForAll([i], T(b_implies(inr(i, W.L), r.ctx.exists(W.L, lambda j: cmp_('==', d2(j), d(i))))), patterns=[d(i)]))]:
            r.lemma(nm, f)
        # contract 'same order': both are the same sequence
        r.assume(z3.ForAll([i], T(b_implies(inr(i, W.L), cmp_('==', d(i), d2(i)))), patterns=[d2(i)]))
        r.assume(z3.ForAll([i], T(b_implies(inr(i, W.L), cmp_('==', d(i), d2(i)))), patterns=[d(i)]))

    def inv(self, it, q):
        W, r, D = self.W, self.W.r, self.W.D
        D.unfold(q)
        D.known(q)
        C, X = r.seq(r.fld(W.o, 'subset_costs')), r.seq(r.fld(W.o, 'subset_sols'))
        i = r.ctx.bound('i')
        m = arith('-', W.K, q)
        return [
            ('one cost less each time', cmp_('==', C.n, m)),
            ('one solution less each time', cmp_('==', X.n, m)),
            ('costs of the subsets left', z3.ForAll([i], T(b_implies(inr(i, m), cmp_('==', C.at(i), W.c0(D.src(q, i))))), patterns=[D.src(q, i)])),
            ('solutions of the subsets left', z3.ForAll([i], T(b_implies(inr(i, m), cmp_('==', X.at(i), W.x0(D.src(q, i))))), patterns=[D.src(q, i)])),
        ]


def same_order(r):
    """two descending sequences of the same elements are equal: induction over the position"""
    L = r.int('L', 0)
    d, e = r.fn('d', [I], I), r.fn('e', [I], I)
    i, j = r.ctx.bound('i'), r.ctx.bound('j')
    a, b = r.fn('where_d', [I], I), r.fn('where_e', [I], I)
    for f in (d, e):
        r.assume(z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, L)), cmp_('>', f(i), f(j)))), patterns=[z3.MultiPattern(f(i), f(j))]))
    for f, g, w in ((d, e, a), (e, d, b)):
        r.assume(z3.ForAll([i], T(b_implies(inr(i, L), b_and(inr(w(i), L), cmp_('==', g(w(i)), f(i))))), patterns=[f(i)]))
    k = r.int('k', 0)
    r.assume(cmp_('<', k, L))
    r.assume(z3.ForAll([i], T(b_implies(inr(i, k), cmp_('==', d(i), e(i)))), patterns=[d(i)]))
    r.assume(z3.ForAll([i], T(b_implies(inr(i, k), cmp_('==', d(i), e(i)))), patterns=[e(i)]))
    r.canary()
    r.ensure('equal at the next position', cmp_('==', d(k), e(k)))


def post(r):
    """_post_merge_processing: costs and solutions follow the merged partition, the new subset is evaluated"""
    W = World(r)
    o, K = W.o, W.K
    W.L = L = r.int('nb_deleted', 1)
    t = r.int('target', 0)
    dl = r.fn('deleted', [I], I)
    W.d = d = r.fn('deleted_descending', [I], I)
    W.rank, W.at = r.fn('rank_of', [I], I), r.fn('at_rank', [I], I)
    i, j = r.ctx.bound('i'), r.ctx.bound('j')
    # contract of merge_all (C07): the deleted subsets are different from each other and behind the target
    r.assume(z3.ForAll([i], T(b_implies(inr(i, L), b_and(cmp_('<', t, dl(i)), cmp_('<', dl(i), K)))), patterns=[dl(i)]))
    r.assume(z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, L)), cmp_('!=', dl(i), dl(j)))), patterns=[z3.MultiPattern(dl(i), dl(j))]))
    # the same in descending order
    r.assume(z3.ForAll([i], T(b_implies(inr(i, L), b_and(inr(W.rank(i), L), cmp_('==', d(i), dl(W.rank(i))), cmp_('==', W.at(W.rank(i)), i)))), patterns=[d(i)]))
    r.assume(z3.ForAll([i], T(b_implies(inr(i, L), b_and(inr(W.at(i), L), cmp_('==', d(W.at(i)), dl(i)), cmp_('==', W.rank(W.at(i)), i)))), patterns=[dl(i)]))
    r.assume(z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, L)), cmp_('>', d(i), d(j)))), patterns=[z3.MultiPattern(d(i), d(j))]))
    W.D = D = ghost.Deletion(r, K, L, d)
    r.lemma('deleted positions exist and descend', D.pre())
    D.known(L)
    r.lemma('fewer subsets deleted than there are', cmp_('<', L, K))
    # ... and the partition is the one left, with a new subset at the target
    pm = r.fn('merged_subset', [I], I)
    m = arith('-', K, L)
    r.assume(z3.ForAll([i], T(b_implies(b_and(inr(i, m), cmp_('!=', i, t)), cmp_('==', pm(i), W.P0(D.src(L, i))))), patterns=[pm(i)]))
    r.assume(cmp_('<', t, m))
    P = r.it.new_list(Fn(m, lambda q: pm(IT(q))))
    r.it.setattr(o, 'partition', P)
    r.it.setattr(o, 'nb_subsets', m)
    r.it.setattr(W.merger, 'deleted_subsets', r.it.new_list(Fn(L, lambda q: dl(IT(q)))))
    r.it.setattr(W.merger, 'target_subsets', r.it.new_list(Lit([t])))
    r.it.loop_spec = lambda it, st, seq: None if seq is None or isinstance(seq, Lit) else Forget(W, seq)
    r.canary()
    r.call(o, '_post_merge_processing')
    r.no_raise()
    r.ensure('the merged partition stays', r.fld(o, 'partition') is P)
    W.consistent()
    r.ensure('solutions of the new subset are tried', len(W.improved) == 1)
    if W.improved:
        X = r.seq0(W.improved[0])
        r.ensure('one solution per new subset', cmp_('==', X.n, 1))
        r.ensure('the solution of the new subset', cmp_('==', X.at(0), r.seq(r.fld(o, 'subset_sols')).at(t)))


def merge_mu(r):
    """_merge_mu_plus_one_feasible: the merger chooses among the feasible subsets"""
    W = World(r)
    o, K = W.o, W.K
    nf, mu = r.int('nb_feasible', 1), r.int('mu', 0)
    ff = r.fn('feasible', [I], I)
    r.assume(cmp_('<', mu, nf))
    x = r.int('point')
    r.it.setattr(W.refiner, 'mu', mu)
    fl = r.it.new_list(Fn(nf, lambda k: ff(IT(k))))
    got = []

    def merged(it, a, k):
        a = list(a)[-4:]
        F = r.seq(a[2])
        got.append('merge')
        r.lemma('the current partition is merged at the last solution', a[0] is W.P and a[1] is x)
        r.lemma('the feasible subsets are the candidates', b_and(cmp_('==', F.n, nf), r.forall(nf, lambda q: cmp_('==', F.at(q), ff(IT(q))))))
        r.lemma('mu + 1 subsets are merged', cmp_('==', a[3], mu))
        W.m, p = r.int('subsets_left', 1), r.fn('subset_left', [I], I)
        W.result = it.new_list(Fn(W.m, lambda q: p(IT(q))))
        return (W.result, W.m)

    def processed(it, a, k):
        got.append('post')
        r.lemma('the merged partition is processed', r.fld(o, 'partition') is W.result)
        r.lemma('with its size', cmp_('==', r.fld(o, 'nb_subsets'), W.m))
    S = r.it.summaries
    S['Merger.merge_feasible'] = merged
    S['AdaptivePartitioner._post_merge_processing'] = processed
    r.canary()
    r.call(o, '_merge_mu_plus_one_feasible', fl, x)
    r.no_raise()
    r.ensure('merged once, then processed', got == ['merge', 'post'])
    r.ensure('the result is the partition', r.fld(o, 'partition') is W.result)
    r.ensure('recorded', T(r.fld(o, 'did_merge')) == True)


def sorting(r):
    """sort_subset_costs: the candidates in decreasing order of their cost"""
    n = r.int('n', 1)
    c, v = r.fn('candidate', [I], I), r.fn('cost', [I], RS)
    mg = r.obj(r.cls('src.Merger', 'Merger'))
    r.canary()
    out = r.call(mg, 'sort_subset_costs', r.it.new_list(Fn(n, lambda q: c(IT(q)))), r.it.new_list(Fn(n, lambda q: v(IT(q)))))
    r.no_raise()
    Q = r.seq(out)
    r.ensure('every candidate', cmp_('==', Q.n, n))
    sg = r.it.perms[-1][1]
    i, j = r.int('i', 0), r.int('j', 0)
    r.assume(b_and(cmp_('<', i, j), cmp_('<', j, n)))
    r.ensure('in some order', cmp_('==', Q.at(i), c(sg(i))))
    r.ensure('costs decrease', cmp_('>=', v(sg(i)), v(sg(j))))


CONTRACTS = [('_split', split), ('_merge', merge), ('_merge_all_feasible_subsets', merge_all), ('_merge_mu_plus_one_feasible', merge_mu),
             ('_post_merge_processing', post), ('sort_subset_costs', sorting), ('same order', same_order), ('deletion', ghost.deletion),
             ('merge_all', C07.merge_all), ('merge_feasible', C07.merge_feasible)]
