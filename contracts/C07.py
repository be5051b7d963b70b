"""C07: merging subsets; choice of the subsets to merge"""
from dv.spec import *
from dv import hoare, lib
from contracts import ghost


def partition_of(r, N):
    ln = r.fn('size', [I], I)
    el = r.fn('scenario', [I, I], I)
    i = r.ctx.bound('i')
    r.assume(z3.ForAll([i], ln(i) >= 1, patterns=[ln(i)]))
    P = r.it.new_list(Fn(N, lambda k: Frozen(Fn(ln(k), lambda q: el(k, q)))))
    return P, ln, el


def merger(r, **f):
    return r.obj(r.cls('src.Merger', 'Merger'), chance_instance=None, chance_instance_part=None, deleted_subsets=r.lst('stale'),
                 target_subsets=r.lst('stale_targets'), **f)


inr = lambda x, hi: b_and(cmp_('<=', 0, x), cmp_('<', x, hi))


class Gather(hoare.Spec):
    """merging loop: q candidates looked at"""

    def __init__(self, W):
        self.W = W

    def inv(self, it, q):
        W, r = self.W, self.W.r
        W.unfold(q)
        P = r.seq(W.P)
        dl, tg = r.seq0(r.fld(W.o, 'deleted_subsets')), r.seq0(r.fld(W.o, 'target_subsets'))
        G, c, t = W.G, W.c, W.t
        i = r.ctx.bound('i')
        j = r.ctx.bound('j')
        inr = lambda x, hi: b_and(cmp_('<=', 0, x), cmp_('<', x, hi))
        Q = r.seq(P.at(t))
        s = W.s0
        p = r.ctx.bound('p')
        other = r.seq(P.at(i))
        if z3.is_const(q):
            self.Q, self.k = Q, q
        elif not z3.is_int_value(q):
            # the target after this iteration: its scenarios so far, then those of the candidate
            old, new, cq = r.named(self.Q, 'target_before'), r.named(Q, 'target_after'), c(self.k)
            m, mine = old.n, b_not(cmp_('==', cq, t))
            occ = lambda q: r.count(q.n, lambda p: cmp_('==', q.at(p), s))
            ahead = r.count(m, lambda p: cmp_('==', new.at(p), s))
            r.lemma('scenarios of the target so far', b_and(cmp_('==', m, W.TL(self.k)), cmp_('==', occ(old), W.TC(self.k))))
            r.lemma('the target grows by the candidate', cmp_('==', new.n, ite(mine, arith('+', m, W.ln(cq)), m)))
            r.lemma('scenarios of the target stay', r.forall(m, lambda p: cmp_('==', new.at(p), old.at(p))))
            r.lemma('scenarios of the candidate are added', b_implies(mine, r.forall(W.ln(cq), lambda p: cmp_('==', new.at(arith('+', m, p)), W.el(cq, p)))))
            r.split_sum(new.n, m, lambda p: ite(cmp_('==', new.at(p), s), 1, 0), W.ln(cq))
            r.lemma('occurrences stay', cmp_('==', ahead, occ(old)))
            r.lemma('occurrences are added', b_implies(mine, cmp_('==', r.count(W.ln(cq), lambda p: cmp_('==', new.at(arith('+', m, p)), s)), W.occ(cq))))
            r.lemma('sizes', b_and(cmp_('<=', 0, m), cmp_('<=', 0, W.ln(cq))))
            r.lemma('occurrences if the candidate is added', b_implies(mine, cmp_('==', occ(new), arith('+', occ(old), W.occ(cq)))))
            r.lemma('occurrences if it is the target', b_implies(b_not(mine), cmp_('==', occ(new), occ(old))))
            r.lemma('occurrences in the target', cmp_('==', occ(new), arith('+', occ(old), ite(mine, W.occ(cq), 0))))
            r.lemma('occurrences counted', cmp_('==', occ(Q), occ(new)))
        return [
            ('number of subsets unchanged', cmp_('==', P.n, W.N)),
            ('merged candidates counted', cmp_('==', dl.n, G(q))),
            ('count', cmp_('==', G(q), arith('-', q, ite(cmp_('<', W.qt, q), 1, 0)))),
            ('merged candidates recorded', z3.ForAll([i], T(b_implies(b_and(inr(i, q), b_not(cmp_('==', c(i), t))), b_and(inr(G(i), dl.n), cmp_('==', dl.at(G(i)), c(i))))), patterns=[c(i)])),
            ('recorded are candidates', z3.ForAll([i], T(b_implies(inr(i, dl.n), b_and(inr(W.H(i), q), cmp_('==', dl.at(i), c(W.H(i))), b_not(cmp_('==', dl.at(i), t)), cmp_('==', G(W.H(i)), i)))), patterns=[W.H(i)])),
            ('target recorded once', b_and(cmp_('==', tg.n, ite(cmp_('==', G(q), 0), 0, 1)), b_implies(cmp_('>', G(q), 0), cmp_('==', tg.at(0), t)))),
            ('the target is not empty', cmp_('>=', W.TL(q), 1)),
            ('size of the target', cmp_('==', Q.n, W.TL(q))),
            ('content of the target', cmp_('==', r.count(Q.n, lambda p: cmp_('==', Q.at(p), s)), W.TC(q))),
            ('every other subset keeps its size', z3.ForAll([i], T(b_implies(b_and(inr(i, W.N), b_not(cmp_('==', i, t))), cmp_('==', other.n, W.ln(i)))), patterns=[W.ln(i)])),
            ('every other subset keeps its content', z3.ForAll([i, p], T(b_implies(b_and(inr(i, W.N), b_not(cmp_('==', i, t)), inr(p, W.ln(i))), cmp_('==', other.at(p), W.el(i, p)))), patterns=[W.el(i, p)])),
        ]


class Delete(hoare.Spec):
    """deletion loop: q positions of the (descending) sequence deleted"""

    def __init__(self, W, seq):
        r = W.r
        self.W, self.P0 = W, r.seq(W.P)
        N = W.N
        dl = r.seq0(r.fld(W.o, 'deleted_subsets'))
        self.K = dl.n
        r.lemma('every candidate but the target is recorded', cmp_('==', dl.n, arith('-', W.k, 1)))
        r.lemma('recorded subsets are deleted once each', cmp_('==', seq.n, dl.n))
        self.d = r.fn('deletion', [I], I)
        i, j = r.ctx.bound('i'), r.ctx.bound('j')
        r.assume(z3.ForAll([i], T(cmp_('==', self.d(i), seq.at(i))), patterns=[self.d(i)]))
        self.D = W.D = ghost.Deletion(r, N, self.K, self.d)
        r.lemma('positions deleted exist and descend', self.D.pre())

    def inv(self, it, q):
        W, r, D = self.W, self.W.r, self.D
        P = r.seq(W.P)
        D.unfold(q)
        D.known(q)
        P0 = self.P0
        i, p = r.ctx.bound('i'), r.ctx.bound('p')
        inr = lambda x, hi: b_and(cmp_('<=', 0, x), cmp_('<', x, hi))
        m = arith('-', W.N, q)
        old = lambda: r.seq(P0.at(D.src(q, i)))
        new = lambda: r.seq(P.at(i))
        return [
            ('one subset less each time', cmp_('==', P.n, m)),
            ('sizes of the subsets kept', z3.ForAll([i], T(b_implies(inr(i, m), cmp_('==', new().n, old().n))), patterns=[D.src(q, i)])),
            ('content of the subsets kept', z3.ForAll([i, p], T(b_implies(b_and(inr(i, m), inr(p, old().n)), cmp_('==', new().at(p), old().at(p)))), patterns=[T(x) for x in [new().at(p)] if not prove.has_logic(T(x))])),
        ]


class World:
    pass


def merge_all(r):
    W = World()
    W.r = r
    W.N = N = r.int('N', 1)
    W.P, W.ln, W.el = partition_of(r, N)
    k = r.int('nb_candidates', 1)
    W.k = k
    W.c = c = r.fn('candidate', [I], I)
    i, j = r.ctx.bound('i'), r.ctx.bound('j')
    inr = lambda x, hi: b_and(cmp_('<=', 0, x), cmp_('<', x, hi))
    r.assume(z3.ForAll([i], T(b_implies(inr(i, k), inr(c(i), N))), patterns=[c(i)]))
    r.assume(z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, k)), cmp_('!=', c(i), c(j)))), patterns=[z3.MultiPattern(c(i), c(j))]))
    # t: the smallest candidate
    W.qt = qt = r.int('where_smallest', 0)
    r.assume(cmp_('<', qt, k))
    W.t = t = c(qt)
    r.assume(z3.ForAll([i], T(b_implies(inr(i, k), cmp_('>=', c(i), t))), patterns=[c(i)]))
    W.s0 = r.int('scenario')        # arbitrary
    W.occ = occ = lambda q: r.count(W.ln(q), lambda p: cmp_('==', W.el(q, p), W.s0))
    # ghosts by recursion over the candidates: number merged, size and content of the target
    W.G, W.H = r.fn('merged', [I], I), r.fn('candidate_of', [I], I)
    W.TL, W.TC = r.fn('target_size', [I], I), r.fn('target_count', [I], I)
    r.assume(b_and(cmp_('==', W.G(0), 0), cmp_('==', W.TL(0), W.ln(t)), cmp_('==', W.TC(0), occ(t))))

    def unfold(q):
        mine = b_not(cmp_('==', c(q), t))
        n = arith('+', q, 1)
        r.assume(b_implies(inr(q, k), b_and(
            cmp_('==', W.G(n), arith('+', W.G(q), ite(mine, 1, 0))), b_implies(mine, cmp_('==', W.H(W.G(q)), q)),
            cmp_('==', W.TL(n), arith('+', W.TL(q), ite(mine, W.ln(c(q)), 0))),
            cmp_('==', W.TC(n), arith('+', W.TC(q), ite(mine, occ(c(q)), 0))))))
    W.unfold = unfold
    C = r.it.new_list(Fn(k, lambda q: c(q)))
    W.o = o = merger(r)
    r.lemma('the smallest candidate', cmp_('==', lib.BUILTINS['min'](r.it, [C], {}), t))
    gather = Gather(W)

    def spec(it, stmt, seq):
        if seq is None:
            return None
        dl = r.seq(r.fld(o, 'deleted_subsets'))
        return gather if isinstance(dl, Lit) and not dl.items else Delete(W, seq)
    r.it.loop_spec = spec
    r.canary()
    out = r.call(o, 'merge_all', W.P, C)
    r.no_raise()
    newP, nb = out
    Q = r.seq(newP)
    r.lemma('number of subsets', b_and(cmp_('==', nb, arith('+', arith('-', N, k), 1)), cmp_('==', Q.n, nb)))
    D, K = W.D, arith('-', k, 1)
    dl, tg = r.seq0(r.fld(o, 'deleted_subsets')), r.seq0(r.fld(o, 'target_subsets'))
    cand = lambda s: r.exists(k, lambda q: cmp_('==', c(q), s))
    r.ensure('deleted subsets are the candidates but the smallest', b_and(
        r.forall(dl.n, lambda q: b_and(cand(dl.at(q)), b_not(cmp_('==', dl.at(q), t)))),
        r.forall(k, lambda q: b_or(cmp_('==', c(q), t), r.exists(dl.n, lambda p: cmp_('==', dl.at(p), c(q)))))))
    r.ensure('target subset is the smallest candidate', b_implies(cmp_('>', k, 1), b_and(cmp_('==', tg.n, 1), cmp_('==', tg.at(0), t))))
    r.lemma('target stays where it was', b_and(cmp_('<', t, nb), cmp_('==', D.src(K, t), t)))
    tq = r.seq(Q.at(t))
    r.lemma('size of the target', cmp_('==', tq.n, W.TL(k)))
    r.ensure('scenarios of the target: those of all candidates', cmp_('==', r.count(tq.n, lambda p: cmp_('==', tq.at(p), W.s0)), W.TC(k)))
    i0, i1, j0, p0 = r.int('subset', 0), r.int('subset', 0), r.int('old_subset', 0), r.int('position', 0)
    r.assume(b_and(cmp_('<', i0, nb), cmp_('<', i1, nb), cmp_('<', j0, N)))
    src = lambda i: D.src(K, i)
    sub = r.seq(Q.at(i0))
    r.ensure('other subsets keep their size', b_or(cmp_('==', i0, t), b_and(inr(src(i0), N), cmp_('==', sub.n, W.ln(src(i0))))))
    r.ensure('other subsets keep their content', b_or(cmp_('==', i0, t), b_not(inr(p0, sub.n)), cmp_('==', sub.at(p0), W.el(src(i0), p0))))
    r.ensure('order of the subsets kept', b_implies(cmp_('<', i0, i1), cmp_('<', src(i0), src(i1))))
    r.ensure('only candidates disappear', b_or(b_and(cand(j0), b_not(cmp_('==', j0, t))), b_and(inr(D.dst(K, j0), nb), cmp_('==', src(D.dst(K, j0)), j0))))
    q0 = r.int('some_candidate', 0)
    r.assume(cmp_('<', q0, k))
    if r.it.perms:
        e = r.it.perms[-1][2](W.G(q0))
        r.lemma('where a candidate is deleted', b_or(cmp_('==', c(q0), t), *[
            b_and(inr(x, K), cmp_('==', D.d(x), c(q0))) for x in (e, arith('-', arith('-', K, 1), e))]))
    r.ensure('candidates disappear', b_or(cmp_('==', c(q0), t), b_not(cmp_('==', src(i0), c(q0)))))


def single_subset_margin(r):
    """smallest slack of the constraints of a subset, each divided by the norm of its row (if not zero)"""
    n, c = r.int('n', 1), r.int('subset', 0)
    mc = r.fn('nb_constraints', [I], I)
    A, b, x = r.fn('A', [I, I, I], RS), r.fn('b', [I, I], RS), r.vec('xUB', n)
    r.assume(mc(c) >= 1)
    part = r.obj(r.cls('src.instance.ChanceInstance', 'ChanceInstance'),
                 get_nb_constraints=Builtin('get_nb_constraints', lambda it, a, k: mc(a[0])),
                 get_matrix_A=Builtin('get_matrix_A', lambda it, a, k: it.new_nd(Nd((mc(a[0]), n), lambda i, j: A(a[0], i, j), 'f'))),
                 get_vector_b=Builtin('get_vector_b', lambda it, a, k: it.new_nd(Nd((mc(a[0]),), lambda i: b(a[0], i), 'f'))))
    o = r.obj(r.cls('src.Merger', 'Merger'), chance_instance=None, chance_instance_part=part)
    r.canary()
    out = r.call(o, '_single_subset_margin', c, x)
    r.no_raise()
    xs = r.seq(x)

    def slack(i):
        g = arith('-', b(c, i), r.sum(n, lambda j: arith('*', A(c, i, j), xs.at(j))))
        norm = lib.norm(r.it, r.it.new_nd(Nd((n,), lambda j: A(c, i, j), 'f')))
        return g, norm
    def is_slack(i, v):
        g, w = slack(i)
        return ite(cmp_('==', w, 0), cmp_('==', v, g), cmp_('==', arith('*', v, w), g))
    i0 = r.int('constraint', 0)
    r.assume(cmp_('<', i0, mc(c)))
    g, w = slack(i0)
    r.ensure('no constraint has a smaller margin', b_implies(b_not(cmp_('==', w, 0)), cmp_('<=', out, arith('/', g, w))))
    r.ensure('no constraint without coefficients has a smaller margin', b_implies(cmp_('==', w, 0), cmp_('<=', out, g)))
    r.ensure('some constraint has this margin', r.exists(mc(c), lambda i: (lambda g, w: b_or(b_and(cmp_('==', w, 0), cmp_('==', out, g)), b_and(b_not(cmp_('==', w, 0)), cmp_('==', out, arith('/', g, w)))))(*slack(i))))


def merge_feasible(r):
    """mu + 1 candidates with the largest margins are handed to merge_all"""
    N, n, mu = r.int('N', 1), r.int('n', 1), r.int('mu', 0)
    P, ln, el = partition_of(r, N)
    x = r.vec('xUB', n)
    k = r.int('nb_candidates', 1)
    c = r.fn('candidate', [I], I)
    i, j = r.ctx.bound('i'), r.ctx.bound('j')
    r.assume(z3.ForAll([i], T(b_implies(inr(i, k), inr(c(i), N))), patterns=[c(i)]))
    r.assume(z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, k)), cmp_('!=', c(i), c(j)))), patterns=[z3.MultiPattern(c(i), c(j))]))
    r.assume(cmp_('<', mu, k))
    C = r.it.new_list(Fn(k, lambda q: c(q)))
    mg = r.fn('margin', [I], RS)
    got = []
    base = 'Merger.'

    def margin(it, args, kw):
        a = list(args)[1:] + list(kw.values())
        got.append(('x', a[1] is x))
        return mg(a[0])

    def merge_all(it, args, kw):
        a = list(args)[1:] + list(kw.values())
        got.append(('all', a[0], r.seq(a[1])))
        it.st.heap[o.id] = it.st.heap[o.id].__class__(it.st.heap[o.id].cls, {**it.st.heap[o.id].fields, 'deleted_subsets': it.new_list(Fn(mu, lambda q: 0))})
        return (it.new_list(Fn(arith('-', N, mu), lambda q: r.seq(P).at(q))), arith('-', N, mu))
    o = merger(r)
    r.it.summaries['Merger._single_subset_margin'] = margin
    r.it.summaries['Merger.merge_all'] = merge_all
    r.canary()
    out = r.call(o, 'merge_feasible', P, x, C, mu)
    r.no_raise()
    r.ensure('margins are taken at the solution', all(g[1] for g in got if g[0] == 'x') and any(g[0] == 'x' for g in got))
    calls = [g for g in got if g[0] == 'all']
    r.lemma('merged once, in the given partition', len(calls) == 1 and calls[0][1] is P)
    Q = r.named(calls[0][2], 'merged')
    r.lemma('mu + 1 subsets are merged', cmp_('==', Q.n, arith('+', mu, 1)))
    q0, q1, p0 = r.int('chosen', 0), r.int('other_chosen', 0), r.int('some_candidate', 0)
    r.assume(b_and(cmp_('<', q0, q1), cmp_('<', q1, Q.n), cmp_('<', p0, k)))
    r.ensure('merged subsets are candidates', r.exists(k, lambda q: cmp_('==', c(q), Q.at(q0))))
    r.ensure('merged subsets are different', b_not(cmp_('==', Q.at(q0), Q.at(q1))))
    r.ensure('candidates left out have no larger margin', b_or(r.exists(Q.n, lambda q: cmp_('==', Q.at(q), c(p0))), cmp_('<=', mg(c(p0)), mg(Q.at(q0)))))


CONTRACTS = [('deletion', ghost.deletion), ('merge_all', merge_all), ('single_subset_margin', single_subset_margin), ('merge_feasible', merge_feasible)]
