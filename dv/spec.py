"""Builders of symbolic pre-states and small specification helpers shared by the contracts."""
import z3
from .core import *
from .seqs import *
from . import core, interp, prove
from .interp import Interp, Builtin, ExtModule, DeadPath, ClassV, FuncV


class Run:
    """one contract: a symbolic pre-state, the real code, the postcondition"""

    def __init__(self, name):
        self.name = name
        self.ctx = Ctx(name)
        self.it = Interp(self.ctx)
        self.it.top_raises = []
        self.pre_facts = None

    # -- code
    def cls(self, module, name):
        m = self.it.loader.load(self.it, module)
        if name not in m.env:
            raise Unsupported("%s has no %s" % (module, name))
        return m.env[name]

    def func(self, module, name):
        m = self.it.loader.load(self.it, module)
        if name not in m.env:
            raise Unsupported("%s has no %s" % (module, name))
        return m.env[name]

    def obj(self, cls, **fields):
        return self.it.new('obj', ObjC(cls, dict(fields)), cls)

    def fld(self, o, name):
        return self.it.getattr(o, name)

    def call(self, obj, name, *args, **kw):
        if isinstance(obj, (ClassV,)):
            return self.it.call(self.it.getattr(obj, name), list(args), kw)
        return self.it.call(self.it.getattr(obj, name), list(args), kw)

    def call_until(self, obj, name, *args, **kw):
        """like call, for contracts whose stubs cut the path off"""
        g = len(self.ctx.guard)
        try:
            return self.call(obj, name, *args, **kw)
        except DeadPath:
            del self.ctx.guard[g:]
            return None

    def some(self, name, v):
        """v is never None (an obligation); the value"""
        from .interp import IteV
        def none(v):
            if v is None:
                return True
            if isinstance(v, IteV):
                return ite(v.c, none(v.a), none(v.b))
            return False

        def strip(v):
            if isinstance(v, IteV):
                a, b = strip(v.a), strip(v.b)
                if a is None:
                    return b
                if b is None:
                    return a
                return v if (a is v.a and b is v.b) else (ite(v.c, a, b) if is_numlike(a) and is_numlike(b) else IteV(v.c, a, b))
            return v
        self.lemma(name, b_not(none(v)))
        return strip(v)

    def no_raise(self, what='no exception escapes'):
        """every exception that reached the top must be unreachable"""
        for e in self.it.top_raises:
            g = list(self.ctx.guard)
            self.ctx.guard[:] = []
            self.ctx.oblige("%s (%s)" % (what, e.value.name), b_not(e.cond), assume_after=False)
            self.ctx.guard[:] = g
        self.it.top_raises = []

    # -- symbols
    def int(self, name, lo=None, hi=None):
        v = self.ctx.fresh(name, I)
        if lo is not None:
            self.ctx.assume(cmp_('>=', v, lo))
        if hi is not None:
            self.ctx.assume(cmp_('<=', v, hi))
        return v

    def real(self, name, lo=None, hi=None):
        v = self.ctx.fresh(name, RS)
        if lo is not None:
            self.ctx.assume(cmp_('>=', v, lo))
        if hi is not None:
            self.ctx.assume(cmp_('<=', v, hi))
        return v

    def bool(self, name):
        return self.ctx.fresh(name, B)

    def fn(self, name, argsorts, sort):
        f = self.ctx.fresh_fn(name, argsorts, sort)

        def g(*a):
            return f(*[R(x) if s == RS else T(x) if s == B else IT(x) for x, s in zip(a, argsorts)])
        return g

    def vec(self, name, n, sort=RS, dtype=None):
        f = self.fn(name, [I], sort)
        return self.it.new_nd(Nd((n,), lambda k: f(k), dtype or ('f' if sort == RS else 'i' if sort == I else 'b')))

    def lst(self, name, n=None, sort=I, elem=None):
        if n is None:
            n = self.int(name + '_len', 0)
        f = elem or self.fn(name, [I], sort)
        return self.it.new_list(Fn(n, lambda k: f(k)))

    def seq(self, v):
        return seq_of(self.it.content(v))

    def seq0(self, v, default=0):
        """like seq, for formulas that look at elements only within the length: an empty list has the element default"""
        q = self.seq(v)
        if isinstance(q, Lit) and not q.items:
            return Fn(0, lambda k: default)
        return q

    def named(self, q, name='content', sort=I):
        """a sequence with the same length and elements under fresh names (definitions)"""
        n, f = self.ctx.fresh('nm_' + name, I), self.fn(name, [I], sort)
        self.assume(cmp_('==', n, q.n))
        k = self.ctx.bound('k')
        self.assume(z3.ForAll([k], T(cmp_('==', f(k), q.at(k))), patterns=[f(k)]))
        return Fn(n, f)

    def nd(self, v):
        c = self.it.content(v)
        return c if isinstance(c, Nd) else nd_of_seq(c)

    def assume(self, f):
        self.ctx.assume(f)

    def ensure(self, name, f):
        self.ctx.pos = 'postcondition'
        self.ctx.oblige(name, f, assume_after=False)

    def lemma(self, name, f):
        """an intermediate obligation, available to the ones after it"""
        self.ctx.pos = 'lemma'
        self.ctx.oblige(name, f)

    def forall(self, n, f, lo=0):
        return self.ctx.forall(n, f, lo=lo)

    def exists(self, n, f, lo=0):
        return self.ctx.exists(n, f, lo=lo)

    def sum(self, n, f):
        return self.ctx.sum(n, f)

    def count(self, n, f):
        return self.ctx.sum(n, lambda k: ite(f(k), 1, 0))

    def perm_sum(self, n, f):
        """sums do not depend on the order of their terms (lemmas/Sums.lean): for every permutation of 0..n-1 met so
        far, sum f(k) = sum f(sig(k))"""
        for (k, sig, inv) in self.it.perms:
            if is_sym(k) and is_sym(n) and not k.eq(n) or (not is_sym(k) or not is_sym(n)) and not (not is_sym(k) and not is_sym(n) and k == n):
                continue
            self.assume(cmp_('==', self.sum(n, f), self.sum(n, lambda q: f(sig(q)))))

    def masked_sums(self, f):
        """the sum over the selected indices is the sum of the selected terms (lemmas/Sums.lean), for every mask met so far"""
        for d, a in self.ctx.masks:
            if any('?' in nm for y in a for nm in core.decl_names(y)):
                continue
            cnt = d.f(*a)
            self.assume(cmp_('==', self.sum(cnt, lambda p: f(d.pos(IT(p), *a))),
                             self.sum(a[0], lambda j: ite(cmp_('==', d.inst(IT(j), a[1:]), 1), f(j), 0))))

    def cut_sum(self, n, m, f):
        """sum over k < n of (f(k) if k < m else 0) is the sum over k < m, for 0 <= m <= n (lemmas/Sums.lean)"""
        a = self.sum(n, lambda k: ite(cmp_('<', k, m), f(k), 0))
        self.assume(b_implies(b_and(cmp_('<=', 0, m), cmp_('<=', m, n)), cmp_('==', a, self.sum(m, f))))

    def split_sum(self, n, m, f, rest=None):
        """a sum over k < n is the sum over k < m plus the sum of the rest (n - m) other terms, for 0 <= m <= n (lemmas/Sums.lean)"""
        rest = arith('-', n, m) if rest is None else rest
        self.assume(b_implies(b_and(cmp_('<=', 0, m), cmp_('<=', 0, rest), cmp_('==', n, arith('+', m, rest))),
                              cmp_('==', self.sum(n, f), arith('+', self.sum(m, f), self.sum(rest, lambda k: f(arith('+', m, k)))))))

    def nonzero(self, n, f):
        """k such that f(k) is not zero and k < n, if the sum of f is not zero (lemmas/Sums.lean)"""
        k = self.ctx.fresh('term', I)
        self.assume(b_or(cmp_('==', self.sum(n, f), 0), b_and(cmp_('<=', 0, k), cmp_('<', k, n), b_not(cmp_('==', f(k), 0)))))
        return k

    def add_sums(self, n, f, g, h):
        """sum f = sum g + sum h unless f(k) differs from g(k) + h(k) for some k < n; that k (lemmas/Sums.lean)"""
        k = self.ctx.fresh('term', I)
        self.assume(b_or(cmp_('==', self.sum(n, f), arith('+', self.sum(n, g), self.sum(n, h))),
                         b_and(cmp_('<=', 0, k), cmp_('<', k, n), b_not(cmp_('==', f(k), arith('+', g(k), h(k)))))))
        return k

    def scale_le(self, n, f, v, g):
        """sum f <= v * sum g unless f(k) > v * g(k) for some k < n; that k (lemmas/Sums.lean)"""
        k = self.ctx.fresh('term', I)
        self.assume(b_or(cmp_('<=', self.sum(n, f), arith('*', v, self.sum(n, g))),
                         b_and(cmp_('<=', 0, k), cmp_('<', k, n), cmp_('>', f(k), arith('*', v, g(k))))))
        return k

    def term_le(self, n, f, k):
        """a sum of terms that are not negative is at least each of them (lemmas/Sums.lean)"""
        self.assume(b_implies(b_and(cmp_('<=', 0, k), cmp_('<', k, n), self.forall(n, lambda q: cmp_('<=', 0, f(q)))), cmp_('<=', f(k), self.sum(n, f))))

    def one_term(self, n, f, k):
        """a sum in which only the term k counts (lemmas/Sums.lean)"""
        self.assume(b_implies(b_and(cmp_('<=', 0, k), cmp_('<', k, n)), cmp_('==', self.sum(n, lambda q: ite(cmp_('==', q, k), f(q), 0)), f(k))))

    def obtain(self, name, n, f):
        """obligation: f holds for some k < n; the result is such a k"""
        self.lemma(name, self.exists(n, f))
        k = self.ctx.fresh('some', I)
        self.assume(b_and(cmp_('<=', 0, k), cmp_('<', k, n), f(k)))
        return k

    def canary(self):
        """the precondition must be satisfiable: remembered, checked by the runner"""
        self.pre_facts = list(self.ctx.all_facts())


class Inst:
    """arbitrary chance-constrained knapsack instance with its mathematical view"""

    def __init__(self, r, cls=None, uniform_proba=True, nonneg=False, continuous=None, fields=None):
        it, ctx = r.it, r.ctx
        self.r = r
        self.S = r.int('S', 1)
        self.m = r.int('m', 1)
        self.n = r.int('n', 1)
        S, m, n = self.S, self.m, self.n
        self.A = r.fn('A', [I, I, I], RS)
        self.b = r.fn('b', [I, I], RS)
        self.c = r.fn('c', [I], RS)
        self.eps = r.real('epsilon', 0, 1)
        ctx.assume(self.eps < 1)
        # F scenarios may be violated; epsilon*S is an integer or at least 1e-6 below the next one
        # (true for every epsilon given with at most six decimals)
        self.F = r.int('tolerated', 0)
        self.E = arith('*', self.eps, S)
        ctx.assume(cmp_('<=', self.F, self.E))
        ctx.assume(cmp_('<=', self.E, arith('-', arith('+', self.F, 1), Fraction(1, 10 ** 6))))
        ctx.assume(cmp_('<', self.F, S))
        ctx.floor_hook = lambda f: (self.gran(f), self.gran(arith('+', f, 1)))
        if nonneg:
            s, i, j = ctx.bound('s'), ctx.bound('i'), ctx.bound('j')
            a = self.A(s, i, j)
            ctx.assume(z3.ForAll([s, i, j], a >= 0, patterns=[a]))
            core.NONNEG_DECLS.add(a.decl().name())
            bb = self.b(s, i)
            ctx.assume(z3.ForAll([s, i], bb >= 0, patterns=[bb]))
            core.NONNEG_DECLS.add(bb.decl().name())
            cc = self.c(j)
            ctx.assume(z3.ForAll([j], cc >= 0, patterns=[cc]))
            core.NONNEG_DECLS.add(cc.decl().name())
        self.cont = r.bool('continuous_var') if continuous is None else continuous
        inv = arith('/', 1, S)
        self.p = (lambda s: inv) if uniform_proba else r.fn('p', [I], RS)
        if not uniform_proba:
            s = ctx.bound('s')
            ctx.assume(z3.ForAll([s], self.p(s) > 0, patterns=[self.p(s)]))
        cls = cls or r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance')
        cont = self.cont
        ub = XR(b_not(cont), False, Fraction(1))
        lb = XR(False, b_not(cont), Fraction(0))
        f = dict(
            file_location='instance.csv', nb_vars=n, nb_scenarios=S, epsilon=self.eps, continuous_var=cont,
            nb_constraints=it.new_nd(Nd((S,), lambda k: m, 'i')),
            matrices_A=it.new_nd(Nd((S, m, n), lambda s, i, j: self.A(s, i, j), 'f')),
            vectors_b=it.new_nd(Nd((S, m), lambda s, i: self.b(s, i), 'f')),
            vector_c=it.new_nd(Nd((n,), lambda j: self.c(j), 'f')),
            proba=it.new_nd(Nd((S,), lambda s: toreal(self.p(s)), 'f')),
            var_type=it.new_nd(Nd((n,), lambda j: cont, 'b')),
            var_lb=it.new_nd(Nd((n,), lambda j: lb, 'f')),
            var_ub=it.new_nd(Nd((n,), lambda j: ub, 'f')))
        f.update(fields or {})
        self.fields = f
        self.ref = r.obj(cls, **f)

    def gran(self, k):
        """no integer k lies strictly between F and epsilon*S + 1e-6 (instance for k of the precondition)"""
        self.r.ctx.assume(b_or(cmp_('<=', k, self.F), cmp_('<=', arith('+', self.E, Fraction(1, 10 ** 6)), k)))

    def lhs(self, s, i, x):
        return self.r.sum(self.n, lambda j: arith('*', self.A(s, i, j), x(j)))

    def norm(self, s, i):
        from . import lib
        return lib.norm(self.r.it, self.r.it.new_nd(Nd((self.n,), lambda j: self.A(s, i, j), 'f')))

    def viol(self, s, i, x):
        """constraint i of scenario s is exceeded by more than 1e-6"""
        return cmp_('>', arith('-', self.lhs(s, i, x), self.b(s, i)), Fraction(1, 10 ** 6))

    def violated(self, s, x):
        return self.r.exists(self.m, lambda i: self.viol(s, i, x))
