"""violations.h: the table of violations (C12), translated from clang's AST on every run (dv/cxx.py)"""
import ast
import os
from dv.spec import *
from dv import hoare, cxx
from dv.lib import conc
from dv.interp import FuncV
from contracts.C11 import Greedy

TOL = Fraction(1, 10 ** 6)


def unit(r, name, extra=None):
    return cxx.module(r.it, os.path.join(r.it.loader.root, 'violations.h'), name, extra or {})


class Knapsack(Greedy):
    """the greedy loop; position q of the loop is item at(q)"""

    def setup(self):
        r = self.r
        self.r_, self.w_, self.x_ = (r.fn(nm, [I], RS) for nm in ('revenue_of', 'weight_of', 'part_of'))
        q = r.ctx.bound('q')
        for f, g in ((self.r_, self.A), (self.w_, self.c), (self.x_, self.x)):
            r.assume(z3.ForAll([q], f(q) == g(self.at(q)), patterns=[f(q)]))
            core.NONNEG_DECLS.add(f(q).decl().name())
        inr = b_and(cmp_('<=', 0, q), cmp_('<', q, self.n))
        r.lemma('items of the order', z3.ForAll([q], T(b_implies(inr, b_and(
            cmp_('>=', self.w_(q), 0), cmp_('>=', self.r_(q), 0), cmp_('>=', self.x_(q), 0), cmp_('<=', self.x_(q), 1)))), patterns=[self.w_(q)]))
        # the order of the items, in these names
        p = r.ctx.bound('p')
        r.lemma('items in decreasing order of revenue per weight', z3.ForAll([p, q], T(b_implies(b_and(
            cmp_('<=', 0, p), cmp_('<=', p, q), cmp_('<', q, self.n), cmp_('>', self.w_(p), 0), cmp_('>', self.w_(q), 0)),
            cmp_('<=', arith('*', self.r_(q), self.w_(p)), arith('*', self.r_(p), self.w_(q))))), patterns=[z3.MultiPattern(self.w_(p), self.w_(q))]))

    def light(self, q):
        return cmp_('<=', self.w_(q), TOL)

    def sum(self, k, f):
        return self.r.sum(k, lambda q: ite(self.light(q), 0, f(q)))

    def P(self, k):
        return self.sum(k, self.r_)

    def W(self, k):
        return self.sum(k, self.w_)

    def R(self, k):
        return self.sum(k, lambda q: arith('*', self.r_(q), self.x_(q)))

    def X(self, k):
        return self.sum(k, lambda q: arith('*', self.w_(q), self.x_(q)))

    def inv(self, it, k):
        p, w = self.state(it)
        self.ks.append(k)
        self.at_head = getattr(self, 'at_head', {})
        self.at_head[str(k)] = (p, w)
        return [('revenue of the items so far', cmp_('==', p, self.P(k))), ('weight of the items so far', cmp_('==', w, self.W(k))),
                ('they fit', cmp_('<=', w, self.cap))]


def update(r, reverse, infinite):
    """one cell and one constraint: the cell stays at least the value of every point the constraint allows, and never grows"""
    n = r.int('n', 0)
    A, c, x = r.fn('revenue', [I], RS), r.fn('weight', [I], RS), r.fn('x', [I], RS)
    j, q, p = r.ctx.bound('j'), r.ctx.bound('q'), r.ctx.bound('p')
    for f in (A, c, x):
        r.assume(z3.ForAll([j], f(j) >= 0, patterns=[f(j)]))
        core.NONNEG_DECLS.add(f(j).decl().name())
    r.assume(z3.ForAll([j], x(j) <= 1, patterns=[x(j)]))
    b, cap = r.real('constant'), r.real('capacity')
    sig, inv, at, back = (r.fn(nm, [I], I) for nm in ('item', 'position', 'item_of_the_loop', 'position_in_the_loop'))
    inr = lambda k: b_and(cmp_('<=', 0, k), cmp_('<', k, n))
    turn = (lambda q: arith('-', arith('-', n, 1), q)) if reverse else (lambda q: q)
    for f, g in ((sig, inv), (inv, sig)):
        r.assume(z3.ForAll([q], T(b_implies(inr(q), b_and(inr(f(q)), cmp_('==', g(f(q)), q)))), patterns=[f(q)]))
    r.assume(z3.ForAll([q], at(q) == IT(sig(turn(q))), patterns=[at(q)]))
    r.assume(z3.ForAll([q], back(q) == IT(turn(inv(q))), patterns=[back(q)]))
    for f, g in ((at, back), (back, at)):
        r.lemma('the order of the loop is one of all items', z3.ForAll([q], T(b_implies(inr(q), b_and(inr(f(q)), cmp_('==', g(f(q)), q)))), patterns=[f(q)]))
    # precondition: no item has a smaller revenue per weight than a later one
    r.assume(z3.ForAll([p, q], T(b_implies(b_and(cmp_('<=', 0, p), cmp_('<', p, q), cmp_('<', q, n), cmp_('>', c(at(p)), 0), cmp_('>', c(at(q)), 0)),
                                           cmp_('<=', arith('*', A(at(q)), c(at(p))), arith('*', A(at(p)), c(at(q)))))),
                       patterns=[z3.MultiPattern(at(p), at(q))]))
    r.it.perms += [(n, sig, inv), (n, at, back)]
    one = lambda v: cxx.Ptr(r.it.new_list(Lit([v])))
    arr = lambda g: cxx.Ptr(r.it.new_list(Fn(n, lambda k: g(k))))
    old = PINF if infinite else r.real('old_cell')
    cell = one(old)
    V = arith('-', r.sum(n, lambda j: arith('*', A(j), x(j))), b)
    r.assume(cmp_('<=', r.sum(n, lambda j: arith('*', c(j), x(j))), cap))
    r.term_le(n, lambda j: arith('*', c(j), x(j)), 0)
    if not infinite:
        r.assume(cmp_('>=', old, V))
    m = unit(r, 'update')
    sp = Knapsack(r, n, x, A, c, cap)
    sp.at = at

    def spec(it, s, seq):
        if seq is None or not any(isinstance(y, ast.Break) for z in s.body for y in ast.walk(z)):
            return None
        sp.roles(it, s)
        sp.setup()
        return sp
    r.it.loop_spec = spec
    r.canary()
    r.lemma('the capacity is not negative', cmp_('>=', cap, 0))
    r.it.call(m.env['update'], [arr(A), one(b), arr(c), one(cap), n, cell, arr(sig), reverse], {})
    r.no_raise()
    new = r.it.content(cell.ref).at(0)
    ks = [k for i, k in enumerate(sp.ks) if is_sym(k) and z3.is_const(k) and not z3.is_int_value(k) and not any(k.eq(y) for y in sp.ks[:i])]
    lt = lambda j: cmp_('<=', c(j), TOL)
    # the point in the order of the loop
    z = lambda j: ite(lt(j), A(j), 0)
    r.perm_sum(n, z)
    for g, f in ((A, sp.r_), (c, sp.w_)):
        r.perm_sum(n, lambda j: arith('*', g(j), x(j)))
        r.lemma('sum in the order of the loop', cmp_('==', r.sum(n, lambda j: arith('*', g(j), x(j))), r.sum(n, lambda q: arith('*', f(q), sp.x_(q)))))
    Z = r.sum(n, lambda q: ite(sp.light(q), sp.r_(q), 0))
    r.lemma('revenue of the light items', cmp_('==', r.sum(n, z), r.sum(n, lambda q: z(at(q)))))
    r.lemma('revenue of the light items in the order of the loop', cmp_('==', r.sum(n, z), Z))
    r.lemma('start of the loop', cmp_('==', sp.p0, arith('-', Z, b)))
    rx, wx = (lambda q: arith('*', sp.r_(q), sp.x_(q))), (lambda q: arith('*', sp.w_(q), sp.x_(q)))
    r.add_sums(n, rx, lambda q: ite(sp.light(q), rx(q), 0), lambda q: ite(sp.light(q), 0, rx(q)))
    r.scale_le(n, lambda q: ite(sp.light(q), rx(q), 0), 1, lambda q: ite(sp.light(q), sp.r_(q), 0))
    r.lemma('value of the point', cmp_('<=', V, arith('+', sp.p0, sp.R(n))))
    r.scale_le(n, lambda q: ite(sp.light(q), 0, wx(q)), 1, wx)
    r.lemma('weight of the point', cmp_('<=', sp.X(n), cap))
    ht = lambda f: (lambda q: ite(sp.light(q), 0, f(q)))
    r.scale_le(n, ht(rx), 1, ht(sp.r_))
    r.lemma('all items', cmp_('<=', sp.R(n), sp.P(n)))

    def worth(u, cond, k, lam, before):
        """item u, before or not before item k, is worth at least or at most the multiplier"""
        op = '<=' if before else '>='
        r.lemma('order of the items', b_implies(cond, cmp_(op, arith('*', sp.r_(k), sp.w_(u)), arith('*', sp.r_(u), sp.w_(k)))))
        x_, y, ru = sp.x_(u), r.real('worth'), r.real('revenue')
        r.assume(b_and(cmp_('==', y, arith('*', lam, sp.w_(u))), cmp_('==', ru, sp.r_(u))))
        r.lemma('order of two items', b_implies(cond, cmp_(op, arith('*', sp.r_(k), sp.w_(u)), arith('*', ru, sp.w_(k)))))
        r.lemma('order by the multiplier', b_implies(cond, cmp_(op, arith('*', y, sp.w_(k)), arith('*', ru, sp.w_(k)))))
        r.lemma('worth of the item', b_implies(cond, cmp_(op, y, ru)))
        xu = r.real('part', 0, 1)
        r.assume(cmp_('==', xu, ite(cond, x_, 0)))
        r.lemma('worth of its part', b_implies(cond, cmp_(op, arith('*', y, xu), arith('*', ru, xu))))
        if before:
            r.lemma('items before', b_implies(cond, cmp_('<=', arith('-', rx(u), sp.r_(u)), arith('*', lam, arith('-', wx(u), sp.w_(u))))))
        else:
            r.lemma('items after', b_implies(cond, cmp_('<=', rx(u), arith('*', lam, wx(u)))))
    for k in ks:
        if str(k).startswith('it_end'):
            continue
        when = b_and(cmp_('<=', 0, k), cmp_('<', k, n), b_not(sp.light(k)))
        lam = r.real('multiplier')
        r.assume(cmp_('==', lam, ite(cmp_('>', sp.w_(k), 0), arith('/', sp.r_(k), sp.w_(k)), 0)))
        r.lemma('multiplier', b_implies(when, b_and(cmp_('>=', lam, 0), cmp_('==', arith('*', lam, sp.w_(k)), sp.r_(k)))))
        fr, fw = (lambda q: arith('-', rx(q), sp.r_(q))), (lambda q: arith('-', wx(q), sp.w_(q)))
        u = r.scale_le(k, ht(fr), lam, ht(fw))
        worth(u, b_and(when, cmp_('<=', 0, u), cmp_('<', u, k), b_not(sp.light(u))), k, lam, True)
        r.lemma('value of the items before', b_implies(when, cmp_('<=', r.sum(k, ht(fr)), arith('*', lam, r.sum(k, ht(fw))))))
        r.add_sums(k, ht(rx), ht(sp.r_), ht(fr))
        r.add_sums(k, ht(wx), ht(sp.w_), ht(fw))
        r.lemma('parts of the sum of revenues', cmp_('==', r.sum(k, ht(fr)), arith('-', sp.R(k), sp.P(k))))
        r.lemma('parts of the sum of weights', cmp_('==', r.sum(k, ht(fw)), arith('-', sp.X(k), sp.W(k))))
        rest = arith('-', n, k)
        r.split_sum(n, k, ht(rx))
        r.split_sum(n, k, ht(wx))
        t = r.scale_le(rest, lambda q: ht(rx)(arith('+', k, q)), lam, lambda q: ht(wx)(arith('+', k, q)))
        u = arith('+', k, t)
        worth(u, b_and(when, cmp_('<=', 0, t), cmp_('<', t, rest), b_not(sp.light(u))), k, lam, False)
        r.lemma('value of the items after', b_implies(when, cmp_('<=', arith('-', sp.R(n), sp.R(k)), arith('*', lam, arith('-', sp.X(n), sp.X(k))))))
        r.lemma('value of the point, with the multiplier', b_implies(when, cmp_('<=', sp.R(n), arith('+', sp.P(k), arith('*', lam, arith('-', cap, sp.W(k)))))))
        p, w = sp.at_head[str(k)]
        a, wt, z = A(at(k)), c(at(k)), arith('-', cap, w)
        r.lemma('data of the item', b_and(cmp_('==', a, sp.r_(k)), cmp_('==', wt, sp.w_(k))))
        for part in (arith('/', arith('*', a, z), wt), arith('*', arith('/', a, wt), z)):
            r.lemma('part of the last item', b_implies(when, cmp_('==', part, arith('*', lam, z))))
            r.lemma('enough with a part of the last item', b_implies(b_and(when, cmp_('==', p, arith('+', sp.p0, sp.P(k))), cmp_('==', w, sp.W(k))), cmp_('>=', arith('+', p, part), V)))
    r.ensure('at least the value of every point the constraint allows', cmp_('>=', new, V))
    r.ensure('never larger than before', cmp_('<=', new, old))


def same_array(p, q):
    return isinstance(p, cxx.Ptr) and isinstance(q, cxx.Ptr) and p.ref is q.ref and not is_sym(p.off) and not is_sym(q.off) and p.off == q.off


def compute(r):
    """two constraints: both cells stay at least the value of every point the other constraint allows"""
    n = r.int('n', 0)
    Ls, Lt, x, y = (r.fn(nm, [I], RS) for nm in ('lhs_s', 'lhs_t', 'x', 'y'))
    j, q, p = r.ctx.bound('j'), r.ctx.bound('q'), r.ctx.bound('p')
    for f in (Ls, Lt, x, y):
        r.assume(z3.ForAll([j], f(j) >= 0, patterns=[f(j)]))
        core.NONNEG_DECLS.add(f(j).decl().name())
    bs, bt = r.real('rhs_s'), r.real('rhs_t')
    inr = lambda k: b_and(cmp_('<=', 0, k), cmp_('<', k, n))
    perm = lambda f, g: [z3.ForAll([q], T(b_implies(inr(q), b_and(inr(f(q)), cmp_('==', g(f(q)), q)))), patterns=[f(q)])]
    sig, inv = r.fn('item', [I], I), r.fn('position', [I], I)
    for f in perm(sig, inv) + perm(inv, sig):
        r.assume(f)
    one = lambda v: cxx.Ptr(r.it.new_list(Lit([v])))
    arr = lambda g: cxx.Ptr(r.it.new_list(Fn(n, lambda k: g(k))))
    ps, pt, ds, dt = arr(Ls), arr(Lt), one(bs), one(bt)
    cs0, ct0 = r.real('cell_s'), r.real('cell_t')
    cs, ct = one(cs0), one(ct0)
    ind = arr(sig)
    dot = lambda f, g: r.sum(n, lambda j: arith('*', f(j), g(j)))
    # (cell, profits, loss, weights, capacity) and the value of the point
    Vs, Vt = arith('-', dot(Ls, x), bs), arith('-', dot(Lt, y), bt)
    gs, gt = r.bool('point_for_s'), r.bool('point_for_t')       # whether there is a point for the cell
    r.assume(b_implies(gs, b_and(cmp_('<=', dot(Lt, x), bt), cmp_('>=', cs0, Vs))))
    r.assume(b_implies(gt, b_and(cmp_('<=', dot(Ls, y), bs), cmp_('>=', ct0, Vt))))

    def sort(it, a, kw):
        r.ctx.pos = 'precondition of std::sort'
        r.ctx.oblige('range of std::sort', b_and(isinstance(a[0], cxx.Ptr) and isinstance(a[1], cxx.Ptr) and a[0].ref is ind.ref and a[1].ref is ind.ref,
                                                 cmp_('==', a[0].off, 0), cmp_('==', a[1].off, n)), assume_after=False)
        old = it.content(ind.ref)
        less = lambda u, v: T(it.call(a[2], [u, v]))
        u, v, w = r.int('u', 0), r.int('v', 0), r.int('w', 0)
        r.ctx.assume(b_and(*[cmp_('<', z, n) for z in (u, v, w)]))
        r.ctx.oblige('no item before itself', b_not(less(u, u)))
        r.ctx.oblige('the order is asymmetric', b_implies(less(u, v), b_not(less(v, u))))
        r.ctx.oblige('the order is transitive', b_implies(b_and(less(u, v), less(v, w)), less(u, w)))
        eq = lambda a_, b_: b_and(b_not(less(a_, b_)), b_not(less(b_, a_)))
        r.ctx.oblige('items of equal rank', b_implies(b_and(eq(u, v), eq(v, w)), eq(u, w)))
        s2, i2 = r.fn('sorted', [I], I), r.fn('sorted_position', [I], I)
        for f in perm(s2, i2) + perm(i2, s2):
            r.ctx.assume(f)
        new = lambda k: s2(k)
        # the elements are those there were before, which are 0 .. n-1
        k = r.int('k', 0)
        r.ctx.assume(cmp_('<', k, n))
        r.ctx.oblige('the elements are the items', b_and(inr(old.at(k)), cmp_('==', inv(old.at(k)), k)))
        rec, r.ctx.record = r.ctx.record, False      # the comparison itself is checked above
        r.ctx.scopes.append(core.Scope())
        c = less(s2(q), s2(p))
        r.ctx.scopes.pop()
        r.ctx.record = rec
        r.ctx.assume(z3.ForAll([p, q], T(b_implies(b_and(cmp_('<=', 0, p), cmp_('<', p, q), cmp_('<', q, n)), b_not(c))), patterns=[z3.MultiPattern(s2(p), s2(q))]))
        it.st.heap[ind.ref.id] = Fn(n, lambda k: new(k))

    def call(it, a, kw):
        """contract of update (above)"""
        prof, loss, wt, cap, m, cell, idx, rev = a
        r.ctx.pos = 'precondition of update'
        s = same_array(cell, cs)
        if not s and not same_array(cell, ct):
            raise Unsupported("cell of update")
        want = (ps, ds, pt, dt) if s else (pt, dt, ps, ds)
        for nm, g, h in zip(('revenues', 'constant', 'weights', 'capacity'), (prof, loss, wt, cap), want):
            r.ctx.oblige('%s of update' % nm, same_array(g, h), assume_after=False)
        r.ctx.oblige('number of items and order', b_and(cmp_('==', m, n), idx.ref is ind.ref, cmp_('==', idx.off, 0)))
        back = conc(T(rev)) if is_sym(rev) else bool(rev)
        c = it.content(ind.ref)
        at = lambda k: c.at(arith('-', arith('-', n, 1), k) if back else k)
        A, W = (Ls, Lt) if s else (Lt, Ls)
        k, l = r.int('k', 0), r.int('l', 0)
        r.ctx.assume(b_and(cmp_('<', k, l), cmp_('<', l, n)))
        i_, j_ = at(k), at(l)
        r.ctx.oblige('items in decreasing order of revenue per weight', b_implies(b_and(cmp_('>', W(i_), 0), cmp_('>', W(j_), 0)), cmp_(
            '<=', arith('*', A(j_), W(i_)), arith('*', A(i_), W(j_)))))
        r.ctx.oblige('every item once', b_and(inr(at(k)), b_not(cmp_('==', at(k), at(l)))))
        old = it.content(cell.ref).at(cell.off)
        V, g = (Vs, gs) if s else (Vt, gt)
        r.ctx.oblige('the cell is at least the value so far', b_implies(g, cmp_('>=', old, V)))
        f = r.ctx.fresh('cell', RS)
        r.ctx.assume(b_implies(g, b_and(cmp_('>=', f, V), cmp_('<=', f, old))))
        cell.set_item(it, 0, f)
        done.append(s)
    done = []
    m = unit(r, 'compute', {'cxx_sort': sort})
    m.env['update'] = Builtin('update', call)
    comp = r.it.call(m.env['Comp'], [], {})
    r.canary()
    r.it.call(m.env['compute'], [ps, ds, pt, dt, n, cs, ct, ind, comp], {})
    r.no_raise()
    at = lambda c: r.it.content(c.ref).at(0)
    r.ensure('first cell', b_implies(gs, b_and(cmp_('>=', at(cs), Vs), cmp_('<=', at(cs), cs0))))
    r.ensure('second cell', b_implies(gt, b_and(cmp_('>=', at(ct), Vt), cmp_('<=', at(ct), ct0))))
    k, l = r.int('k', 0), r.int('l', 0)
    r.assume(b_and(cmp_('<', k, l), cmp_('<', l, n)))
    c = r.it.content(ind.ref)
    r.ensure('the indices remain all items', b_and(inr(c.at(k)), b_not(cmp_('==', c.at(k), c.at(l)))))


class Target(hoare.Spec):
    """invariant: the cell of the fixed triple (s, t, i) is valid"""

    def inv(self, it, k):
        return [('the cell is valid', cmp_('==', it.st.heap['ghost_valid'], 1))]


def table(r):
    """computeAllViolations: any fixed cell changes only by a constraint of its scenario t against its constraint (s, i)"""
    K, n, m = r.int('k', 1), r.int('n', 1), r.int('m', 1)
    s, t, i = r.int('s', 0), r.int('t', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, K), cmp_('<', t, K), cmp_('<', i, m)))
    mul = lambda *a: arith('*', a[0], mul(*a[1:])) if len(a) > 1 else a[0]
    addr = lambda u, v, w: arith('+', arith('+', mul(u, K, m), mul(v, m)), w)
    h = r.it.st.heap
    h['ghost_valid'] = z3.IntVal(1)
    L, B_, C = (r.it.new_list(Fn(r.int(nm + '_size', 0), (lambda f: lambda k: f(k))(r.fn(nm, [I], RS)))) for nm in ('lhs', 'rhs', 'cells'))
    inds = []

    def new(it, a, kw):
        r.ctx.oblige('room for the items', cmp_('==', a[0], n))
        p = cxx.Ptr(it.new_list(Fn(n, lambda k: 0)))
        inds.append(p)
        return p

    def flat(e, coefs, rng):
        """loop variables u, v.. such that e = u * coefs[0] + v * coefs[1] + ..; None if there are none"""
        vs = [v for v in {str(v): v for v in r.it.st.env.values() if is_sym(v) and z3.is_int(v)}.values()] + [z3.IntVal(0)]
        import itertools
        for c in itertools.product(vs, repeat=len(coefs)):
            d = IT(e)
            for v, k in zip(c, coefs):
                d = d - v * IT(k)
            if z3.is_int_value(z3.simplify(d, som=True)) and z3.simplify(d, som=True).as_long() == 0:
                return c
        return None

    def call(it, a, kw):
        """contract of compute (above)"""
        sl, sr, tl, tr, nn, cs, ct, ind, comp = a
        ctx = r.ctx
        ctx.pos = 'precondition of compute'
        ctx.oblige('arrays of compute', b_and(sl.ref is L, tl.ref is L, sr.ref is B_, tr.ref is B_, cs.ref is C, ct.ref is C, cmp_('==', nn, n)), assume_after=False)
        k = ctx.fresh('k', I)
        ctx.assume(b_and(cmp_('<=', 0, k), cmp_('<', k, n)))
        ctx.oblige('all items', b_and(len(inds) == 1, ind.ref is inds[-1].ref, cmp_('==', ind.off, 0), cmp_('==', it.content(ind.ref).at(k), k)))
        for p in (cs, ct):
            c = flat(p.off, [mul(K, m), m, 1], None)
            if c is not None:
                # row-major addresses are those of one cell only (lemmas/Sums.lean: cells_inj, cells_range, rowmajor_range)
                rng = b_and(*[b_and(cmp_('<=', 0, u), cmp_('<', u, b)) for u, b in zip(c, (K, K, m))])
                ctx.assume(b_implies(b_and(rng, cmp_('==', addr(*c), addr(s, t, i))), b_and(*[cmp_('==', u, v) for u, v in zip(c, (s, t, i))])))
                ctx.assume(b_implies(rng, b_and(cmp_('<=', 0, addr(*c)), cmp_('<', addr(*c), mul(mul(K, K), m)))))
            ctx.oblige('the cell is in the table', b_and(cmp_('<=', 0, p.off), cmp_('<', p.off, mul(mul(K, K), m))))
        for p, q in ((sr, sl), (tr, tl)):
            c = flat(p.off, [m, 1], None)
            if c is not None:
                rng = b_and(*[b_and(cmp_('<=', 0, u), cmp_('<', u, b)) for u, b in zip(c, (K, m))])
                e = arith('+', mul(c[0], m), c[1])
                ctx.assume(b_implies(rng, b_and(cmp_('<=', 0, e), cmp_('<', e, mul(K, m)))))
            ctx.oblige('a constraint of the data', b_and(cmp_('<=', 0, p.off), cmp_('<', p.off, mul(K, m))))
            ctx.oblige('coefficients of the constraint', cmp_('==', q.off, mul(p.off, n)))
        me = addr(s, t, i)
        row, lo, hi = arith('+', mul(s, m), i), mul(t, m), arith('+', mul(t, m), m)
        ctx.oblige('two cells', b_not(cmp_('==', cs.off, ct.off)))
        for nm, cell, own, other in (('first', cs, sr, tr), ('second', ct, tr, sr)):
            hit = cmp_('==', cell.off, me)
            ctx.oblige('%s cell: the constraint of the cell' % nm, b_implies(hit, cmp_('==', own.off, row)))
            ctx.oblige('%s cell: against a constraint of the scenario of the cell' % nm, b_implies(hit, b_and(cmp_('<=', lo, other.off), cmp_('<', other.off, hi))))
            ok = b_and(cmp_('==', own.off, row), cmp_('<=', lo, other.off), cmp_('<', other.off, hi))
            it.st.heap['ghost_valid'] = T(ite(b_and(hit, b_not(ok)), z3.IntVal(0), it.st.heap['ghost_valid']))
    mod = unit(r, 'computeAllViolations', {'cxx_new': new, 'cxx_sort': None})
    mod.env['compute'] = Builtin('compute', call)

    def spec(it, st, seq):
        if seq is None or not any(isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and isinstance(mod.env.get(y.func.id), (FuncV, Builtin))
                                  and not y.func.id.startswith('cxx_') for z in st.body for y in ast.walk(z)):
            return None
        return Target()
    r.it.loop_spec = spec
    r.canary()
    r.it.call(mod.env['computeAllViolations'], [cxx.Ptr(L), cxx.Ptr(B_), K, n, m, cxx.Ptr(C)], {})
    r.no_raise()
    r.ensure('the cell is valid at the end', cmp_('==', h_(r, 'ghost_valid'), 1))


def h_(r, k):
    return r.it.st.heap[k]


def wrapper(r):
    """compute_all_violations: data in row-major order, cells of one scenario start at zero and the others at infinity"""
    K, n, m = r.int('k', 1), r.int('n', 1), r.int('m', 1)
    A, b = r.fn('A', [I, I, I], RS), r.fn('b', [I, I], RS)
    an = r.it.new_nd(Nd((K, m, n), lambda s, i, j: A(s, i, j), 'f'))
    bn = r.it.new_nd(Nd((K, m), lambda s, i: b(s, i), 'f'))
    F = r.fn('table', [I, I, I], RS)
    calls = []

    def c(it, a, kw):
        calls.append(1)
        r.ctx.pos = 'precondition of computeAllViolations'
        lhs, rhs, k, n_, m_, cells = a
        r.ctx.oblige('dimensions', b_and(cmp_('==', k, K), cmp_('==', n_, n), cmp_('==', m_, m)))
        s, t, i, j = r.int('s', 0), r.int('t', 0), r.int('i', 0), r.int('j', 0)
        r.ctx.assume(b_and(cmp_('<', s, K), cmp_('<', t, K), cmp_('<', i, m), cmp_('<', j, n)))
        L, B_, C = (it.content(x) for x in (lhs, rhs, cells))
        r.ctx.oblige('shapes', b_and(len(L.shape) == 3, len(B_.shape) == 2, len(C.shape) == 3, *[cmp_('==', u, v) for u, v in zip(
            tuple(L.shape) + tuple(B_.shape) + tuple(C.shape), (K, m, n, K, m, K, K, m))]))
        r.ctx.oblige('data', b_and(cmp_('==', L.at(s, i, j), A(s, i, j)), cmp_('==', B_.at(s, i), b(s, i))))
        v = C.at(s, t, i)
        r.ctx.oblige('the cells of one scenario start at zero or more', b_implies(cmp_('==', s, t), cmp_('>=', v, 0)))
        r.ctx.oblige('the other cells start at infinity', b_implies(b_not(cmp_('==', s, t)), cmp_('==', v, PINF)))
        r.ctx.oblige('the cells of one scenario start at zero', b_implies(cmp_('==', s, t), cmp_('==', v, 0)))
        it.st.heap[cells.id] = Nd((K, K, m), lambda s, t, i: F(s, t, i), 'f')
    mod = cxx.pyx(r.it, os.path.join(r.it.loader.root, 'violations.pyx'), {'computeAllViolations': c})
    r.canary()
    res = r.nd(r.it.call(mod.env['compute_all_violations'], [an, bn], {}))
    r.no_raise()
    r.ensure('the table is filled once', len(calls) == 1)
    r.ensure('shape of the table', b_and(len(res.shape) == 3, *[cmp_('==', u, v) for u, v in zip(res.shape, (K, K, m))]))
    s, t, i = r.int('s', 0), r.int('t', 0), r.int('i', 0)
    r.assume(b_and(cmp_('<', s, K), cmp_('<', t, K), cmp_('<', i, m)))
    r.ensure('the table is the one that was filled', cmp_('==', res.at(s, t, i), F(s, t, i)))


CASES = [('update, %s, %s cell' % ('backward' if rev else 'forward', 'infinite' if inf else 'finite'), (lambda r, rev=rev, inf=inf: update(r, rev, inf)))
         for rev in (False, True) for inf in (False, True)]
CONTRACTS = CASES + [('compute', compute), ('computeAllViolations', table), ('compute_all_violations, compiled', wrapper)]
