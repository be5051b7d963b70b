"""C03: load_partition and the getters of PartitionChanceKnapInstance"""
from dv.spec import *

ASSUMES = ["the partition lists existing scenarios and no empty subset (established by C04, C05, C07)"]


def setup(r, uniform):
    I_ = Inst(r, uniform_proba=uniform)
    P = r.it.call(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'), [I_.ref], {})
    K = r.int('nb_subsets', 1)
    size, part = r.fn('size', [I], I), r.fn('part', [I, I], I)
    c, k = r.ctx.bound('c'), r.ctx.bound('k')
    r.assume(z3.ForAll([c], size(c) >= 1, patterns=[size(c)]))
    r.assume(z3.ForAll([c, k], z3.And(part(c, k) >= 0, part(c, k) < I_.S), patterns=[part(c, k)]))
    plist = r.it.new_list(Fn(K, lambda q: Frozen(Fn(size(q), lambda j, q=q: part(q, j)))))
    r.canary()
    return I_, P, K, size, part, plist


def aggregation(r):
    I_, P, K, size, part, plist = setup(r, False)
    m, n, S = I_.m, I_.n, I_.S
    before = dict(r.it.st.heap[I_.ref.id].fields)
    content = {k: r.it.st.heap[v.id] for k, v in before.items() if isinstance(v, Ref)}
    pc = r.it.content(plist)
    # an arbitrary earlier partition was loaded before
    K0 = r.int('old_nb', 1)
    size0, part0 = r.fn('size0', [I], I), r.fn('part0', [I, I], I)
    q, w = r.ctx.bound('c'), r.ctx.bound('k')
    r.assume(z3.ForAll([q], size0(q) >= 1, patterns=[size0(q)]))
    r.assume(z3.ForAll([q, w], z3.And(part0(q, w) >= 0, part0(q, w) < S), patterns=[part0(q, w)]))
    r.call(P, 'load_partition', K0,
           r.it.new_list(Fn(K0, lambda q: Frozen(Fn(size0(q), lambda j, q=q: part0(q, j))))))
    r.call(P, 'load_partition', K, plist)
    r.ensure('number of subsets', cmp_('==', r.call(P, 'get_nb_scenarios'), K))
    c = r.int('c', 0)
    r.assume(cmp_('<', c, K))
    p = r.int('p', 0)
    r.assume(cmp_('<', p, size(c)))
    i = r.int('i', 0)
    r.assume(cmp_('<', i, m))
    j = r.int('j', 0)
    r.assume(cmp_('<', j, n))
    rows = arith('*', size(c), m)
    k = arith('+', arith('*', p, m), i)
    r.lemma('row inside the subset', b_and(cmp_('<', k, rows), cmp_('>=', k, 0)))
    r.lemma('row belongs to the p-th scenario', b_and(cmp_('==', arith('//', k, m), p), cmp_('==', arith('%', k, m), i)))
    r.ensure('number of constraints of a subset', cmp_('==', r.call(P, 'get_nb_constraints', c), rows))
    A = r.nd(r.call(P, 'get_matrix_A', c))
    r.ensure('shape of a subset matrix', b_and(len(A.shape) == 2, cmp_('==', A.shape[0], rows), cmp_('==', A.shape[1], n)))
    r.ensure('matrix row k is constraint k mod m of scenario k div m', cmp_('==', A.at(k, j), I_.A(part(c, p), i, j)))
    b = r.nd(r.call(P, 'get_vector_b', c))
    r.ensure('shape of a subset right-hand side', b_and(len(b.shape) == 1, cmp_('==', b.shape[0], rows)))
    r.ensure('right-hand side k is that of the same constraint', cmp_('==', b.at(k), I_.b(part(c, p), i)))
    mn = lambda q: r.ctx.minmax('min', size(q), lambda k: R(I_.p(part(q, k))))
    tot = r.sum(K, mn)
    pr = r.nd(r.call(P, 'get_proba'))
    r.lemma('sum of the minima is positive', cmp_('>', tot, 0))
    r.ensure('one probability per subset', cmp_('==', pr.shape[0], K))
    r.ensure('probability: smallest of the subset over the sum of minima', cmp_('==', arith('*', pr.at(c), tot), mn(c)))
    r.ensure('probabilities sum to one', cmp_('==', r.sum(K, lambda q: pr.at(q)), 1))
    r.ensure('epsilon divided by the same sum', cmp_('==', arith('*', r.call(P, 'get_epsilon'), tot), I_.eps))
    after = r.it.st.heap[I_.ref.id].fields
    same = all(after.get(k_) is v for k_, v in before.items()) and len(after) == len(before)
    same = same and all(r.it.st.heap[before[k_].id] is v for k_, v in content.items())
    r.ensure('the underlying instance is left untouched', same)
    r.ensure('the partition is left untouched', r.it.content(plist) is pc)
    r.no_raise()


def allowance(r):
    I_, P, K, size, part, plist = setup(r, True)
    r.call(P, 'load_partition', K, plist)
    c = r.int('c', 0)
    r.assume(cmp_('<', c, K))
    pr = r.nd(r.call(P, 'get_proba'))
    e = r.call(P, 'get_epsilon')
    inv = arith('/', 1, I_.S)
    tot = arith('*', K, inv)
    r.lemma('sum of minima', cmp_('>', tot, 0))
    r.lemma('probability of a subset', cmp_('==', arith('*', pr.at(c), K), 1))
    q = r.int('violated_subsets', 0)
    r.ensure('as many subsets as scenarios may be violated', T(cmp_('<=', arith('*', q, pr.at(c)), e)) ==
             T(cmp_('<=', q, I_.E)))
    r.no_raise()


CONTRACTS = [('aggregation', aggregation), ('allowance', allowance)]
