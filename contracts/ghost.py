"""Ghost functions shared by contracts: repeated deletion at descending positions, and its properties (proved here)."""
from dv.spec import *


class Deletion:
    """a list of n elements from which the positions d(0) > d(1) > ... > d(K-1) are deleted in this order.
    src(k, i): original position of the i-th element left after k deletions; dst(k, j): its inverse.
    Defined by recursion over k; the rest is proved by induction (contract 'deletion')."""

    def __init__(self, r, n, K, d):
        self.r, self.n, self.K, self.d = r, n, K, d
        self.src, self.dst = r.fn('src', [I, I], I), r.fn('dst', [I, I], I)
        i = r.ctx.bound('i')
        r.assume(z3.ForAll([i], T(cmp_('==', self.src(0, i), i)), patterns=[self.src(0, i)]))
        r.assume(z3.ForAll([i], T(cmp_('==', self.dst(0, i), i)), patterns=[self.dst(0, i)]))

    def unfold(self, k):
        """definition at k + 1"""
        r, d = self.r, self.d
        i = r.ctx.bound('i')
        a, b = self.src(arith('+', k, 1), i), self.dst(arith('+', k, 1), i)
        r.assume(b_implies(b_and(cmp_('<=', 0, k), cmp_('<', k, self.K)), b_and(
            z3.ForAll([i], T(cmp_('==', a, ite(cmp_('<', i, d(k)), self.src(k, i), self.src(k, arith('+', i, 1))))), patterns=[a]),
            z3.ForAll([i], T(cmp_('==', b, ite(cmp_('<', i, d(k)), self.dst(k, i), arith('-', self.dst(k, i), 1)))), patterns=[b]))))

    def props(self, k):
        """[(name, formula)] about the state after k deletions"""
        n, d, src, dst, r = self.n, self.d, self.src, self.dst, self.r
        i, j, q = r.ctx.bound('i'), r.ctx.bound('j'), r.ctx.bound('q')
        m = arith('-', n, k)
        inr = lambda x, hi: b_and(cmp_('<=', 0, x), cmp_('<', x, hi))
        dead = lambda x: r.ctx.exists(k, lambda q: cmp_('==', d(q), x))
        low = lambda x: b_or(cmp_('==', k, 0), cmp_('<', x, d(arith('-', k, 1))))
        fa = lambda vs, f, p: z3.ForAll(vs, T(f), patterns=p)
        return [
            ('positions in range', fa([i], b_implies(inr(i, m), inr(src(k, i), n)), [src(k, i)])),
            ('order kept', fa([i, j], b_implies(b_and(inr(i, m), inr(j, m), cmp_('<', i, j)), cmp_('<', src(k, i), src(k, j))), [z3.MultiPattern(src(k, i), src(k, j))])),
            ('nothing before the deleted positions moves', fa([i], b_implies(b_and(inr(i, n), low(i)), cmp_('==', src(k, i), i)), [src(k, i)])),
            ('nothing before the deleted positions moves (inverse)', fa([i], b_implies(b_and(inr(i, n), low(i)), cmp_('==', dst(k, i), i)), [dst(k, i)])),
            ('deleted positions are gone', fa([i, q], b_implies(b_and(inr(i, m), inr(q, k)), b_not(cmp_('==', src(k, i), d(q)))), [z3.MultiPattern(src(k, i), d(q))])),
            ('every other position is kept', fa([j], b_implies(b_and(inr(j, n), b_not(dead(j))), b_and(inr(dst(k, j), m), cmp_('==', src(k, dst(k, j)), j))), [dst(k, j)])),
        ]

    def pre(self):
        r, d = self.r, self.d
        i, j = r.ctx.bound('i'), r.ctx.bound('j')
        inr = lambda x: b_and(cmp_('<=', 0, x), cmp_('<', x, self.K))
        return b_and(
            z3.ForAll([i], T(b_implies(inr(i), b_and(cmp_('<=', 0, d(i)), cmp_('<', d(i), self.n)))), patterns=[d(i)]),
            z3.ForAll([i, j], T(b_implies(b_and(inr(i), inr(j), cmp_('<', i, j)), cmp_('>', d(i), d(j)))), patterns=[z3.MultiPattern(d(i), d(j))]))

    def known(self, k):
        """the properties after k deletions, by the induction of contract 'deletion'"""
        for nm, f in self.props(k):
            self.r.assume(b_implies(b_and(cmp_('<=', 0, k), cmp_('<=', k, self.K)), f))


def deletion(r):
    """induction over the number of deletions"""
    n, K = r.int('n', 0), r.int('K', 0)
    d = r.fn('d', [I], I)
    D = Deletion(r, n, K, d)
    r.assume(D.pre())
    k = r.int('k', 0)
    r.assume(cmp_('<', k, K))
    r.canary()
    for nm, f in D.props(z3.IntVal(0)):
        r.ensure('no deletion: ' + nm, f)
    D.unfold(k)
    for nm, f in D.props(k):
        r.assume(f)
    r.lemma('position of the next deletion', b_and(cmp_('<=', 0, d(k)), cmp_('<', d(k), arith('-', n, k)), cmp_('==', D.src(k, d(k)), d(k))))
    for nm, f in D.props(arith('+', k, 1)):
        r.lemma('one more deletion: ' + nm, f)
