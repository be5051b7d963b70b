"""Discharging obligations: axiom instances for sums / extrema / filters, z3 and cvc5 in parallel."""
import os
import subprocess
import time
import tempfile
import multiprocessing as mp
import multiprocessing.connection as mpc
import math
import z3
from .core import *
from . import core

CVC5 = '/usr/local/bin/cvc5'
for _p in ('/usr/local/bin/cvc5', '/usr/bin/cvc5', '/opt/veriftools/bin/cvc5'):
    if os.path.exists(_p):
        CVC5 = _p
        break


# ------------------------------------------------------------------ goal splitting
def split_goal(hyps, goal, out, depth=0):
    """list of (hyps, goal) without outer quantifiers / implications / conjunctions"""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.Const("sk!%d" % core.uid_fixed(), goal.var_sort(i)) for i in range(goal.num_vars())]
        split_goal(hyps, z3.substitute_vars(goal.body(), *reversed(vs)), out, depth)
        return
    if z3.is_implies(goal):
        split_goal(hyps + [goal.arg(0)], goal.arg(1), out, depth)
        return
    if z3.is_and(goal):
        for c in goal.children():
            split_goal(hyps, c, out, depth + 1)
        return
    if z3.is_true(goal):
        return
    if z3.is_not(goal) and z3.is_or(goal.arg(0)):
        for c in goal.arg(0).children():
            split_goal(hyps, z3.Not(c), out, depth + 1)
        return
    if z3.is_or(goal):
        # turn disjuncts that are negations / quantified into hypotheses
        ch = goal.children()
        neg_ = [c for c in ch if z3.is_not(c) or z3.is_quantifier(c) and c.is_exists()]
        pos = [c for c in ch if not (z3.is_not(c) or z3.is_quantifier(c) and c.is_exists())]
        ex = [c for c in neg_ if not z3.is_not(c)]
        if not pos and ex:
            pos = ex[-1:]
            neg_ = [c for c in neg_ if c is not pos[0]]
        if neg_ and len(pos) <= 1:
            h = [c.arg(0) if z3.is_not(c) else z3.Not(c) for c in neg_]
            split_goal(hyps + h, pos[0] if pos else z3.BoolVal(False), out, depth + 1)
            return
    if z3.is_eq(goal) and goal.arg(0).sort() == B and not z3.is_true(goal.arg(0)) and depth < 40:
        a, b = goal.children()
        split_goal(hyps + [a], b, out, depth + 1)
        split_goal(hyps + [b], a, out, depth + 1)
        return
    if z3.is_app(goal) and goal.decl().kind() == z3.Z3_OP_ITE and goal.sort() == B:
        c, a, b = goal.children()
        split_goal(hyps + [c], a, out, depth + 1)
        split_goal(hyps + [z3.Not(c)], b, out, depth + 1)
        return
    out.append((hyps, goal))


def flat_hyps(hyps):
    out = []
    st = list(reversed(hyps))
    while st:
        h = st.pop()
        if z3.is_and(h):
            st.extend(reversed(h.children()))
            continue
        if z3.is_true(h):
            continue
        if z3.is_quantifier(h) and h.is_exists():
            vs = [z3.Const("sk!%d" % core.uid_fixed(), h.var_sort(i)) for i in range(h.num_vars())]
            st.append(z3.substitute_vars(h.body(), *reversed(vs)))
            continue
        if z3.is_not(h):
            g = h.arg(0)
            if z3.is_or(g):
                st.extend(z3.Not(c) for c in reversed(g.children()))
                continue
            if z3.is_implies(g):
                st.append(z3.Not(g.arg(1)))
                st.append(g.arg(0))
                continue
            if z3.is_not(g):
                st.append(g.arg(0))
                continue
            if z3.is_quantifier(g) and g.is_forall():
                vs = [z3.Const("sk!%d" % core.uid_fixed(), g.var_sort(i)) for i in range(g.num_vars())]
                st.append(z3.Not(z3.substitute_vars(g.body(), *reversed(vs))))
                continue
        out.append(h)
    return out


# ------------------------------------------------------------------ axiom instances
def apps_of(ts, names):
    """{name: [ground applications]}, set of names that occur under quantifiers"""
    out, ng = {}, set()
    seen = set()
    st = list(ts)
    gcache = {}

    def ground(t):
        i = t.get_id()
        if i in gcache:
            return gcache[i]
        if z3.is_var(t):
            r = False
        elif z3.is_quantifier(t):
            r = True      # closed enough for our purposes: sums never contain open quantifiers
        else:
            r = all(ground(c) for c in t.children())
        gcache[i] = r
        return r
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
                nm = t.decl().name()
                if nm in names:
                    if ground(t):
                        out.setdefault(nm, []).append(t)
                    else:
                        ng.add(nm)
            st.extend(t.children())
    return out, ng


def norm_sub(a, b):
    """a - b if it is a small literal"""
    d = z3.simplify(a - b)
    return d.as_long() if z3.is_int_value(d) else None


LOGIC = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_GE,
         z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT, z3.Z3_OP_XOR}


def has_logic(t):
    """no pattern may contain such a term"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x) or z3.is_app(x) and x.decl().kind() in LOGIC:
            return True
        st.extend(x.children())
    return False


def has_var(t):
    return z3.is_var(t) or any(has_var(c) for c in t.children())


def body_trigger(body, k, deep=False):
    """smallest uninterpreted application in body that mentions k; deep: also under quantifiers"""
    best = None
    seen = set()
    st = [body]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            if deep:
                st.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0 and occurs(k, t) \
                    and any(c.eq(k) for c in t.children()):
                if best is None and not has_logic(t) and not (deep and has_var(t)):
                    best = t
            st.extend(t.children())
    return best


BADPAT = {z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_IMPLIES, z3.Z3_OP_DISTINCT}
_fan = [0]


def FA(vs, body, patterns=()):
    """ForAll whose patterns may contain conditional terms: those without bound variables get a name, others lose the pattern"""
    defs, sub = [], []
    ids = {v.get_id() for v in vs}

    def bad(t):
        if t.get_id() in [x.get_id() for x, _ in sub]:
            return False
        if z3.is_quantifier(t) or z3.is_app(t) and t.decl().kind() in BADPAT:
            if has(t):
                return True
            _fan[0] += 1
            c = z3.Const('pat#%d' % _fan[0], t.sort())
            sub.append((t, c))
            defs.append(c == t)
            return False
        return any(bad(c) for c in t.children())

    def has(t):
        return t.get_id() in ids or any(has(c) for c in t.children())
    if any(bad(x) for pt in patterns for x in (pt if isinstance(pt, tuple) else (pt,))):
        return z3.ForAll(vs, body)
    if not sub:
        return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*pt) if isinstance(pt, tuple) else pt for pt in patterns])
    pats = []
    for pt in patterns:
        if not isinstance(pt, tuple):
            pats.append(z3.substitute(pt, *sub))
        else:
            keep = [z3.substitute(x, *sub) for x in pt]     # MultiPattern keeps no reference
            pats.append(z3.MultiPattern(*keep))
    return z3.And(*defs, z3.ForAll(vs, z3.substitute(body, *sub), patterns=pats))


def axioms_for(ctx, hyps, goal, deep=True):
    """axiom instances relevant to the symbols that occur; iterates to a (small) fixpoint"""
    out = []
    done = set()
    seen_sum = []            # (def, args) of ground sum terms
    fm = list(hyps) + [goal]
    if any('deallen' in trig for trig, f in ctx.axioms):
        present = set()
        for f in fm:
            decl_names(f, present)
            for nm in list(present):
                if nm in ctx.sumdefs:
                    decl_names(ctx.sumdefs[nm].body, present)
        early = [f for trig, f in ctx.axioms if 'deallen' in trig and trig & present and not z3.is_quantifier(f)]
        out.extend(early)
        fm += early
    names = set(ctx.sumdefs) | set(ctx.mmdefs) | set(ctx.posdefs)
    frontier = fm
    pairs_done = set()
    univ = set()
    rounds = 3 if deep else 2
    for rd in range(rounds):
        ground, ng = apps_of(frontier, names)
        new = []
        for nm in sorted(set(ground) | ng):
            if nm in ctx.posdefs and nm not in ng and nm not in univ:
                d = ctx.posdefs[nm]
                for t in ground[nm]:
                    args = [t.arg(i) for i in range(1, t.num_args())]
                    pk = (nm,) + tuple(x.get_id() for x in args)
                    if pk not in univ:
                        univ.add(pk)
                        ctx.keep.append(t)
                        new.extend(pos_univ(d, args))
                continue
            if nm in univ:
                continue
            univ.add(nm)
            if nm in ctx.sumdefs:
                new.extend(sum_univ(ctx.sumdefs[nm]))
            elif nm in ctx.mmdefs:
                new.extend(mm_univ(ctx.mmdefs[nm]))
            else:
                new.extend(pos_univ(ctx.posdefs[nm]))
        for nm, ts in sorted(ground.items()):
            for t in ts:
                key = t.get_id()
                if key in done:
                    continue
                done.add(key)
                ctx.keep.append(t)
                if nm in ctx.sumdefs:
                    d = ctx.sumdefs[nm]
                    new.extend(sum_ground(d, t))
                    if len(seen_sum) < 40:
                        seen_sum.append((d, t))
        # pairwise lemmas
        if rd < 2:
            for a in range(len(seen_sum)):
                for b in range(a):
                    (d1, t1), (d2, t2) = seen_sum[a], seen_sum[b]
                    pk = (t1.get_id(), t2.get_id())
                    if pk in pairs_done or len(pairs_done) >= 150:
                        continue
                    if unrelated(t1.arg(0), t2.arg(0)):
                        continue
                    pairs_done.add(pk)
                    new.extend(sum_pair(d1, t1, d2, t2))
        new = [x for x in new if not z3.is_true(x)]
        out.extend(new)
        if not new:
            break
        frontier = new
    present = set()
    for f in fm + out:
        decl_names(f, present)
    for trig, f in ctx.axioms:
        if not trig or trig & present:
            out.append(f)
    return out


def sum_univ(d):
    out = []
    n = z3.Const('n#', I)
    ps = list(d.params)
    S = d.f(n, *ps)
    zero = z3.IntVal(0) if S.sort() == I else z3.RealVal(0)
    vs = [n] + ps
    out.append(FA(vs, z3.Implies(n <= 0, S == zero), patterns=[S]))
    if d.nonneg:
        out.append(FA(vs, S >= 0, patterns=[S]))
    if d.zero_one:
        out.append(FA(vs, z3.Implies(n >= 0, S <= n), patterns=[S]))
    return out


def parity(d):
    """m if the terms of the 0/1 sum are those of `k % 2 == m`; decided by the solver"""
    if not hasattr(d, '_parity'):
        d._parity = None
        if not d.params and not decl_names(d.body) - {str(d.k)}:
            for m in (0, 1):
                s = z3.Solver()
                s.set('timeout', 2000)
                s.add(d.k >= 0, d.body != z3.If(d.k % 2 == m, 1, 0))
                if s.check() == z3.unsat:
                    d._parity = m
    return d._parity


def sum_ground(d, t):
    n, args = t.arg(0), [t.arg(i) for i in range(1, t.num_args())]
    out = []
    zero = z3.IntVal(0) if t.sort() == I else z3.RealVal(0)
    out.append(z3.Implies(n <= 0, t == zero))
    if z3.is_int_value(n):
        v = n.as_long()
        if 0 < v <= 4:
            acc = zero
            for j in range(v):
                acc = acc + d.inst(z3.IntVal(j), args)
            out.append(t == acc)
    # last step
    sn = z3.simplify(n)
    if z3.is_add(sn) and any(z3.is_int_value(c) and c.as_long() == 1 for c in sn.children()):
        m = z3.simplify(n - 1)
        out.append(z3.Implies(m >= 0, t == d.f(m, *args) + d.inst(m, args)))
    if d.nonneg:
        # positive -> some positive term; all terms bounded by the sum
        w = z3.Function('wit_' + d.f.name(), *([I] + [a.sort() for a in args] + [I]))(n, *args)
        out.append(z3.Implies(t > 0, z3.And(w >= 0, w < n, d.inst(w, args) > 0)))
        k = z3.Const('k#b', I)
        body = d.inst(k, args)
        tr = body_trigger(body, k)
        f = z3.Implies(z3.And(k >= 0, k < n), t >= body)
        out.append(FA([k], f, patterns=[tr]) if tr is not None else FA([k], f))
    if d.zero_one:
        m = parity(d)
        if m is not None:
            out.append(z3.Implies(n >= 0, t == (n + 1 - m) / 2))
        w = z3.Function('zwit_' + d.f.name(), *([I] + [a.sort() for a in args] + [I]))(n, *args)
        out.append(z3.Implies(z3.And(n >= 0, t < n), z3.And(w >= 0, w < n, d.inst(w, args) == 0)))
        k = z3.Const('k#b', I)
        body = d.inst(k, args)
        tr = body_trigger(body, k)
        f = z3.Implies(z3.And(k >= 0, k < n, body == 0), t <= n - 1)
        out.append(FA([k], f, patterns=[tr]) if tr is not None else FA([k], f))
    return out


def unrelated(n1, n2):
    """lengths over different symbols: no lemma about the two sums applies"""
    if n1.eq(n2):
        return False
    if any(z3.is_const(n) and n.decl().name().startswith('nm_') for n in (n1, n2)):
        return False            # a name for another length (spec.Run.named)
    a, b = set(), set()
    decl_names(n1, a)
    decl_names(n2, b)
    return bool(a) and bool(b) and not a & b


def sum_pair(d1, t1, d2, t2):
    out = []
    n1, a1 = t1.arg(0), [t1.arg(i) for i in range(1, t1.num_args())]
    n2, a2 = t2.arg(0), [t2.arg(i) for i in range(1, t2.num_args())]
    same_args = d1 is d2 and all(x.eq(y) for x, y in zip(a1, a2))
    if same_args:
        diff = norm_sub(n1, n2)
        if diff == 0:
            return [t1 == t2]
        if diff is None or abs(diff) == 1:
            out.append(z3.Implies(z3.And(n1 == n2 + 1, n2 >= 0), t1 == t2 + d1.inst(n2, a2)))
            out.append(z3.Implies(z3.And(n2 == n1 + 1, n1 >= 0), t2 == t1 + d1.inst(n1, a1)))
        if d1.nonneg:
            out.append(z3.Implies(n1 <= n2, t1 <= t2))
            out.append(z3.Implies(n2 <= n1, t2 <= t1))
            # strict growth when a positive term lies between
            for (x, tx, y, ty) in ((n1, t1, n2, t2), (n2, t2, n1, t1)):
                out.append(z3.Implies(z3.And(x >= 0, x < y), ty >= tx + d1.inst(x, a1)))
        if d1.zero_one:
            out.append(z3.Implies(z3.And(n1 >= 0, n1 <= n2), t2 - t1 <= n2 - n1))
            out.append(z3.Implies(z3.And(n2 >= 0, n2 <= n1), t1 - t2 <= n1 - n2))
        out.append(z3.Implies(n1 == n2, t1 == t2))
        return out
    if t1.sort() != t2.sort():
        return out
    d = None if d1 is d2 else norm_sub(n1, n2)
    sk = z3.Const("sk!s%d_%d" % (t1.get_id(), t2.get_id()), I)
    sk2 = z3.Const("sl!s%d_%d" % (t1.get_id(), t2.get_id()), I)
    sk3 = z3.Const("sm!s%d_%d" % (t1.get_id(), t2.get_id()), I)
    b1, b2 = d1.inst(sk, a1), d2.inst(sk, a2)
    rng = lambda s: z3.And(s >= 0, s < n1)
    out.append(z3.Implies(n1 == n2, z3.Or(t1 <= t2, z3.And(rng(sk), b1 > b2))))
    c1, c2 = d1.inst(sk2, a1), d2.inst(sk2, a2)
    out.append(z3.Implies(n1 == n2, z3.Or(t2 <= t1, z3.And(rng(sk2), c2 > c1))))
    if d1.zero_one and d2.zero_one:
        e1, e2 = d1.inst(sk3, a1), d2.inst(sk3, a2)
        out.append(z3.Implies(z3.And(n1 == n2, n1 >= 0), z3.Or(t1 + t2 == n1, z3.And(rng(sk3), e1 + e2 != 1))))
    if z3.is_true(z3.simplify(n1 == n2)) or d1 is not d2 or True:
        pass
    return out


def mm_univ(d):
    out = []
    n = z3.Const('n#', I)
    k = z3.Const('k#b', I)
    ps = list(d.params)
    F, W = d.f(n, *ps), d.w(n, *ps)
    vs = [n] + ps
    cond_true = z3.is_true(d.cond)
    bw, cw = d.inst(W, ps), d.inst_cond(W, ps)
    bk, ck = d.inst(k, ps), d.inst_cond(k, ps)
    if cond_true:
        out.append(FA(vs, z3.Implies(n > 0, z3.And(W >= 0, W < n, F == bw)), patterns=[F]))
    cmp2 = z3.And(F >= bk, z3.Implies(k < W, F > bk)) if d.kind == 'max' else \
        z3.And(F <= bk, z3.Implies(k < W, F < bk))
    concl = cmp2 if cond_true else z3.And(cmp2, W >= 0, W < n, cw, F == bw)
    body = z3.Implies(z3.And(k >= 0, k < n, ck), concl)
    tr = body_trigger(d.inst(k, ps), k)
    if tr is None and not cond_true:
        tr = body_trigger(ck, k)
    if tr is not None:
        out.append(FA(vs + [k], body, patterns=[(F, tr)]))
    else:
        out.append(FA(vs + [k], body))
    return out


def pos_univ(d, args=None):
    """positions of the ones of a 0/1 sequence; args = (n, params): for one ground instance only"""
    out = []
    p, q, j = z3.Const('p#p', I), z3.Const('p#q', I), z3.Const('p#j', I)
    if args is None:
        n = z3.Const('n#', I)
        ps = list(d.params)
        vs = [n] + ps
    else:
        n, ps, vs = args[0], list(args[1:]), []
    S = d.f(n, *ps)
    P, Q = d.pos(p, n, *ps), d.pos(q, n, *ps)
    out.append(FA([p] + vs, z3.Implies(z3.And(p >= 0, p < S), z3.And(
        P >= 0, P < n, d.inst(P, ps) == 1, d.f(P, *ps) == p)), patterns=[P]))
    out.append(FA([p, q] + vs, z3.Implies(z3.And(p >= 0, p < q, q < S), P < Q),
                         patterns=[(P, Q)]))
    m = parity(d)
    if m is not None:       # by the count of each parity
        out.append(FA([p] + vs, z3.Implies(z3.And(p >= 0, p < S), P == 2 * p + m), patterns=[P]))
    bj = d.inst(j, ps)
    tr = body_trigger(bj, j)
    Pj = d.pos(d.f(j, *ps), n, *ps)
    body = z3.Implies(z3.And(j >= 0, j < n, bj == 1), z3.And(Pj == j, d.f(j, *ps) < S, d.f(j, *ps) >= 0))
    pats = [tr]
    if tr is None:
        pats = [d.f(j, *ps)]
        tr = body_trigger(bj, j, deep=True)
        if tr is not None:
            pats.append(tr)
    out.append(FA([j] + vs, body, patterns=[(S, x) if vs else x for x in pats]))
    return out


# ------------------------------------------------------------------ relevance
UBIQ = 12


def def_names(ctx):
    """symbols behind each sum / extremum / position symbol"""
    c = getattr(ctx, '_def_names', None)
    if c is None:
        c = ctx._def_names = {}
    for nm, d in list(ctx.sumdefs.items()) + list(ctx.mmdefs.items()) + list(ctx.posdefs.items()):
        if nm not in c:
            x = decl_names(d.body)
            if hasattr(d, 'cond'):
                x = x | decl_names(d.cond)
            c[nm] = {y for y in x if not y.startswith('p#')}
    return c


def closed_names(t, ctx):
    cur = decl_names(t)
    if ctx is None:
        return cur
    dn = def_names(ctx)
    st = list(cur)
    while st:
        x = st.pop()
        for y in dn.get(x, ()):
            if y not in cur:
                cur.add(y)
                st.append(y)
    return cur


def relevant(hyps, goal, rounds=3, ctx=None):
    syms = [closed_names(h, ctx) for h in hyps]
    freq = {}
    for s in syms:
        for x in s:
            freq[x] = freq.get(x, 0) + 1
    common = {x for x, c in freq.items() if c > max(UBIQ, len(hyps) // 3)}
    cur = closed_names(goal, ctx)
    take = [False] * len(hyps)
    for _ in range(rounds):
        add = set()
        for i, s in enumerate(syms):
            if not take[i] and ((s & cur) - common or (s and s <= cur)):
                take[i] = True
                add |= s
        if not add - cur:
            break
        cur |= add
    return [h for h, t in zip(hyps, take) if t]


def closest(hyps, goal, k, ctx):
    """the k hypotheses closest to the goal (shared symbols, rare ones weigh more), in their order"""
    syms = [closed_names(h, ctx) for h in hyps]
    freq = {}
    for s in syms:
        for x in s:
            freq[x] = freq.get(x, 0) + 1
    w = {x: 1.0 / (1.0 + math.log(c)) for x, c in freq.items()}
    cur = dict.fromkeys(closed_names(goal, ctx), 1.0)
    taken = set()
    damp = 1.0
    while len(taken) < k:
        best = []
        for i, s in enumerate(syms):
            if i in taken:
                continue
            if not s:
                continue
            inn = sum(w[x] * cur[x] for x in s if x in cur)
            if inn <= 0:
                continue
            out = sum(1 for x in s if x not in cur)
            best.append((inn / (inn + out), inn, i))
        if not best:
            break
        best.sort(reverse=True)
        damp *= 0.7
        for sc, _, i in best[:max(1, (k - len(taken) + 1) // 2)]:
            taken.add(i)
            for x in syms[i]:
                cur.setdefault(x, damp)
    return [hyps[i] for i in sorted(taken)]


# ------------------------------------------------------------------ solving
def quick_valid(ctx, hyps, goal, ms):
    gs = []
    split_goal(list(hyps), goal, gs)
    for hs, g in gs:
        hs = flat_hyps(hs)
        rel = hs if z3.is_false(g) else relevant(hs, g, ctx=ctx)
        ax = axioms_for(ctx, rel, g, deep=False)
        s = z3.Solver()
        s.set('timeout', ms)
        s.set('random_seed', 0)
        for h in rel + ax:
            s.add(h)
        s.add(z3.Not(g))
        if s.check() != z3.unsat:
            return False
    return True


def clashes(t):
    """does t contain a quantifier inside another one with the same bound name? (printing would capture)"""
    seen = {}

    def names(t):
        i = t.get_id()
        if i in seen:
            return seen[i]
        r = (frozenset(), False)
        if z3.is_quantifier(t):
            ns, c = names(t.body())
            own = [t.var_name(j) for j in range(t.num_vars())]
            r = (ns | frozenset(own), c or any(n in ns for n in own) or len(set(own)) < len(own))
        elif z3.is_app(t):
            ns, c = frozenset(), False
            for x in t.children():
                n1, c1 = names(x)
                ns = ns | n1 if n1 else ns
                c = c or c1
            r = (ns, c)
        seen[i] = r
        return r
    return names(t)[1]


_ren = {}
_ren_keep = []


def rename_bound(t, d=0):
    """the same formula with bound names made distinct along every nesting"""
    if not core.has_quant(t):
        return t
    key = (t.get_id(), d)
    if key in _ren:
        return _ren[key]
    if z3.is_quantifier(t):
        vs = [z3.Const('q!%d' % (d + j), t.var_sort(j)) for j in range(t.num_vars())]
        rv = list(reversed(vs))
        body = rename_bound(z3.substitute_vars(t.body(), *rv), d + len(vs))
        pats = []
        for j in range(t.num_patterns()):
            pt = t.pattern(j)
            keep = [z3.substitute_vars(c, *rv) for c in pt.children()]
            pats.append(z3.MultiPattern(*keep))
        r = (z3.ForAll if t.is_forall() else z3.Exists)(vs, body, patterns=pats)
    else:
        r = t.decl()(*[rename_bound(c, d) for c in t.children()])
    _ren[key] = r
    _ren_keep.append((t, r))
    return r


def to_smt2(hyps, goal):
    s = z3.Solver()
    for h in list(hyps) + [z3.Not(goal)]:
        if core.has_quant(h) and clashes(h):
            h = rename_bound(h)
        s.add(h)
    return s.to_smt2()


Z3 = '/usr/local/bin/z3-new' if os.path.exists('/usr/local/bin/z3-new') else 'z3'


def _run_cmd(cmd, text, ms):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write(text)
        f.close()
        p = subprocess.run(cmd + [f.name], capture_output=True, text=True, timeout=ms / 1000 + 3,
                           stdin=subprocess.DEVNULL)
        o = p.stdout.strip().split('\n')
        return (o[0] if o and o[0] in ('sat', 'unsat') else 'unknown'), p.stdout[:4000], p.stderr[:300]
    except subprocess.TimeoutExpired:
        return 'unknown', 'timeout', ''
    finally:
        os.unlink(f.name)


def _run_z3(text, ms, opts):
    t = max(1, -(-ms // 1000))
    cmd = [Z3, '-smt2', '-t:%d' % ms, '-T:%d' % (t + 1), '-memory:3000'] + ['%s=%s' % (k, str(v).lower()) for k, v in opts.items()]
    r, out, err = _run_cmd(cmd, text, ms + 1000)
    return r, ('timeout' if r == 'unknown' else out)


def _run_cvc5(text, ms):
    r, out, err = _run_cmd([CVC5, '--tlimit=%d' % ms, '--full-saturate-quant'], "(set-logic ALL)\n" + text, ms)
    return r, (err or out)[:300]


# ------------------------------------------------------------------ abstraction of nonlinear terms
class Abstract:
    """replaces products and quotients of non-constants by uninterpreted functions (a weakening)"""

    def __init__(self):
        self.cache = {}
        self.keep = []
        self.hit = False
        self.mul = {s: z3.Function('mul!%s' % s.name(), s, s, s) for s in (I, RS)}
        self.dv = z3.Function('div!Real', RS, RS, RS)

    def num(self, t):
        return z3.is_rational_value(t) or z3.is_int_value(t) or \
            (z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_int_value(t.arg(0)))

    def factors(self, t, out):
        k = t.decl().kind() if z3.is_app(t) else None
        if k == z3.Z3_OP_MUL:
            for c in t.children():
                self.factors(c, out)
        elif k == z3.Z3_OP_UMINUS:
            out.append(z3.IntVal(-1) if t.sort() == I else z3.RealVal(-1))
            self.factors(t.arg(0), out)
        else:
            out.append(t)

    def __call__(self, t):
        i = t.get_id()
        if i in self.cache:
            return self.cache[i]
        self.keep.append(t)
        if z3.is_var(t):
            r = t
        elif z3.is_quantifier(t):
            b = self(t.body())
            n = t.num_vars()
            c = t.ctx_ref()
            pats = []
            for q in range(t.num_patterns()):
                p = t.pattern(q)
                pats.append(z3.MultiPattern(*[self(x) for x in p.children()]) if p.num_args() > 1 else
                            z3.MultiPattern(self(p.arg(0))))
            ps = (z3.Pattern * len(pats))(*[p.ast for p in pats])
            sorts = (z3.Sort * n)(*[t.var_sort(q).ast for q in range(n)])
            names = (z3.Symbol * n)(*[z3.to_symbol(t.var_name(q), t.ctx) for q in range(n)])
            self.keep.append(pats)
            a = z3.Z3_mk_quantifier(c, t.is_forall(), t.weight(), len(pats), ps, n, sorts, names, b.as_ast())
            r = z3.QuantifierRef(a, t.ctx)
        elif z3.is_app(t) and t.num_args() > 0:
            ch = [self(c) for c in t.children()]
            k = t.decl().kind()
            if k == z3.Z3_OP_MUL:
                fs = []
                for c in ch:
                    self.factors(c, fs)
                cs = [c for c in fs if self.num(c)]
                vs = sorted((c for c in fs if not self.num(c)), key=lambda c: c.get_id())
                if len(vs) >= 2:
                    self.hit = True
                    m = vs[0]
                    for v in vs[1:]:
                        m = self.mul[t.sort()](m, v)
                        self.keep.append(m)
                    r = m
                    for c in cs:
                        r = c * r
                else:
                    r = t.decl()(*ch)
            elif k == z3.Z3_OP_DIV and not self.num(ch[1]):
                self.hit = True
                r = self.dv(*ch)
            elif all(x.eq(y) for x, y in zip(ch, t.children())):
                r = t
            else:
                r = t.decl()(*ch)
        else:
            r = t
        self.cache[i] = r
        self.keep.append(r)
        return r


def match(p, t, env):
    if z3.is_var(p):
        i = z3.get_var_index(p)
        if i in env:
            return env if env[i].eq(t) else None
        if p.sort() != t.sort():
            return None
        return dict(env, **{}) | {i: t}
    if not z3.is_app(p) or not z3.is_app(t) or p.num_args() != t.num_args() or not p.decl().eq(t.decl()):
        return None
    for a, b in zip(p.children(), t.children()):
        env = match(a, b, env)
        if env is None:
            return None
    return env


def ground_apps(ts):
    out, seen, st = {}, set(), list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.setdefault(x.decl().name(), []).append(x)
            st.extend(x.children())
    return out


def conjuncts(h):
    if z3.is_and(h):
        for c in h.children():
            yield from conjuncts(c)
    elif z3.is_implies(h):
        for c in conjuncts(h.arg(1)):
            yield c if c is h.arg(1) else z3.Implies(h.arg(0), c)
    else:
        yield h


def instances(hyps, goal, limit=60):
    """instances of the universal hypotheses at the ground terms that match their patterns; the hypotheses without quantifier"""
    flat = [c for h in hyps for c in conjuncts(h)]
    out = [h for h in flat if not core.has_quant(h)]
    qs = []
    for h in flat:
        g, q = None, h
        if z3.is_implies(h) and not core.has_quant(h.arg(0)):
            g, q = h.arg(0), h.arg(1)
        if z3.is_quantifier(q) and q.is_forall() and q.num_patterns() == 1 and not core.has_quant(q.body()):
            qs.append((g, q))
    seen = set()
    for rnd in range(2):
        ap = ground_apps(out + [goal])
        new = []
        for g, q in qs:
            envs = [{}]
            for p in q.pattern(0).children():
                nxt = []
                if not z3.is_app(p) or p.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    envs = []
                    break
                for e in envs:
                    for t in ap.get(p.decl().name(), ()):
                        m = match(p, t, e)
                        if m is not None:
                            nxt.append(m)
                envs = nxt[:40]
            for e in envs:
                if len(e) != q.num_vars():
                    continue
                b = z3.substitute_vars(q.body(), *[e[i] for i in range(q.num_vars())])
                b = z3.simplify(b)
                k = (b.get_id(), g.get_id() if g is not None else 0)
                if k not in seen and len(seen) < limit:
                    seen.add(k)
                    new.append(z3.Implies(g, b) if g is not None else b)
        out += new
    return out


class Pure:
    """quantifier-free real arithmetic: every other term becomes a constant, integers become reals (both weaken)"""

    def __init__(self):
        self.cache, self.consts, self.keep, self.extra = {}, {}, [], []

    def const(self, t):
        t = z3.simplify(t)
        k = t.get_id()
        if k not in self.consts:
            self.keep.append(t)
            self.consts[k] = z3.Const('c%d' % len(self.consts), B if t.sort() == B else RS)
        return self.consts[k]

    def __call__(self, t):
        i = t.get_id()
        if i not in self.cache:
            self.keep.append(t)
            self.cache[i] = self.conv(t)
        return self.cache[i]

    def conv(self, t):
        if z3.is_quantifier(t):
            return self.const(t)
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t):
            return t
        k = t.decl().kind()
        if k == z3.Z3_OP_TO_REAL:
            return self(t.arg(0))
        arithm = {z3.Z3_OP_ADD: lambda c: z3.Sum(c), z3.Z3_OP_MUL: lambda c: z3.Product(c), z3.Z3_OP_SUB: lambda c: c[0] - z3.Sum(c[1:]),
                  z3.Z3_OP_UMINUS: lambda c: -c[0], z3.Z3_OP_ITE: lambda c: z3.If(*c), z3.Z3_OP_LE: lambda c: c[0] <= c[1],
                  z3.Z3_OP_LT: lambda c: c[0] < c[1], z3.Z3_OP_GE: lambda c: c[0] >= c[1], z3.Z3_OP_GT: lambda c: c[0] > c[1],
                  z3.Z3_OP_AND: lambda c: z3.And(c), z3.Z3_OP_OR: lambda c: z3.Or(c), z3.Z3_OP_NOT: lambda c: z3.Not(c[0]),
                  z3.Z3_OP_IMPLIES: lambda c: z3.Implies(*c), z3.Z3_OP_DIV: lambda c: c[0] / c[1]}
        if k == z3.Z3_OP_EQ and t.arg(0).sort() in (I, RS, B):
            a, b = self(t.arg(0)), self(t.arg(1))
            if t.arg(0).sort() == I:
                self.extra.append(z3.Or(a <= b - 1, a == b, a >= b + 1))
            return a == b
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and t.arg(0).sort() == I:
            a, b = self(t.arg(0)), self(t.arg(1))
            f = a <= b if k in (z3.Z3_OP_LE, z3.Z3_OP_GT) else a >= b
            self.extra.append(z3.Or(f, a >= b + 1 if k in (z3.Z3_OP_LE, z3.Z3_OP_GT) else a <= b - 1))
            return f if k in (z3.Z3_OP_LE, z3.Z3_OP_GE) else z3.Not(f)
        if k in arithm:
            return arithm[k]([self(c) for c in t.children()])
        if t.sort() in (I, RS, B):
            return self.const(t)
        raise Unsupported("sort")


def nra(hs, g, k, ctx):
    """the obligation in nonlinear real arithmetic"""
    try:
        sel = closest(hs, g, k, ctx)
        sel = instances(sel + axioms_for(ctx, sel, g, deep=False), g)
        pu = Pure()
        goal = pu(g)
        s = z3.Solver()
        names = decl_names(goal)
        fs = [pu(h) for h in sel]
        fs += pu.extra
        # what shares no constant with the goal, transitively, does not matter
        cur, rest, ch = set(names), [(f, decl_names(f)) for f in fs], True
        keep = []
        while ch:
            ch = False
            for x in list(rest):
                if x[1] & cur:
                    cur |= x[1]
                    keep.append(x[0])
                    rest.remove(x)
                    ch = True
        for f in keep:
            s.add(f)
        s.add(z3.Not(goal))
        return '(set-logic QF_NRA)\n' + '\n'.join(x for x in s.to_smt2().split('\n') if not x.startswith('(set-logic'))
    except Unsupported:
        return None


def nonlinear(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return False
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_MUL and sum(1 for c in x.children() if not z3.is_rational_value(c) and not z3.is_int_value(c)) > 1 or \
                    x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
            st.extend(x.children())
    return False


NB = {'smt.mbqi': False, 'smt.auto_config': False}


def attempts(ctx, hs, g):
    """(tag, text, time, options) in the order to try; texts are built when they are reached.  Every text is the obligation
    with fewer hypotheses, or more (axiom instances): unsat settles it.  Only the full text can refute."""
    near = relevant(hs, g, rounds=1)
    nearq = [h for h in near if not core.has_quant(h)]

    def abst(fs, goal):
        ab = Abstract()
        r = [ab(f) for f in fs]
        q = ab(goal)
        return to_smt2(r, q) if ab.hit else None
    l0 = to_smt2(nearq, g)
    a0 = abst(nearq, g)
    yield 'a0', a0 or l0, 700, {}
    mp = []
    prev = -1
    gw = witnesses(hs, g, ctx)
    if gw is not None:
        for k in (10, 32):
            sel = closest(hs, gw, k, ctx)
            sel = sel + axioms_for(ctx, sel, gw, deep=False)
            mp.append(abst(sel, gw) or to_smt2(sel, gw))
            yield 'm%d' % (len(mp) - 1), mp[-1], 1200, {}
    for k in (6, 14, 32):
        sel = closest(hs, g, k, ctx)
        if len(sel) == prev:
            break
        prev = len(sel)
        sel = sel + axioms_for(ctx, sel, g, deep=False)
        mp.append(abst(sel, g) or to_smt2(sel, g))
        yield 'm%d' % (len(mp) - 1), mp[-1], 1200, {}
    if nonlinear(g):
        for k in (8, 24):
            t = nra(hs, g, k, ctx)
            if t is not None:
                yield 'r%d' % k, t, 1500, {}
    mid = relevant(hs, g, rounds=2)
    mid = mid + axioms_for(ctx, mid, g, deep=False)
    a1 = abst(mid, g)
    l1 = to_smt2(mid, g)
    yield 'a1', a1 or l1, 2000, {}
    if a0:
        yield 'l0', l0, 1000, {}
    if a1:
        yield 'l1', l1, 2000, {}
    for q, x in enumerate(mp):
        yield 'n%d' % q, x, 2500, NB
    if a1:
        yield 'n1', a1, 4000, NB
    if nonlinear(g):
        t = nra(hs, g, 80, ctx)
        if t is not None:
            yield 'r80', t, 3000, {}
    rel = relevant(hs, g, ctx=ctx)
    rt = to_smt2(rel + axioms_for(ctx, rel, g), g)
    ft = rt
    if len(rel) < len(hs):
        ft = to_smt2(hs + axioms_for(ctx, hs, g), g)
    if ft is rt:
        yield 'full', rt, 2500, {}
    else:
        yield 'rel', rt, 2500, {}
    yield 'reln', rt, 4000, NB
    if ft is not rt:
        yield 'full', ft, 5000, {}
    yield 'cvc5', rt, 6000, None
    if any(nonlinear(h) for h in rel) and not nonlinear(g) and not core.has_quant(g):
        for k in (24, 80):
            t = nra(hs, g, k, ctx)
            if t is not None:
                yield 'r%d' % k, t, 3000, {}
    yield 'fulln', ft, 8000, dict(NB, **{'smt.random_seed': 7})
    for q, x in enumerate(mp[:2]):
        yield 'c%d' % q, x, 3000, None


def solve(ctx, ob, scale, deadline=None):
    """(result, backend, time, info) of one obligation"""
    t0 = time.time()
    backends = set()
    how = []
    if ob.hyps is None:
        return ('proved', 'simplifier', 0.0, '')
    gs = []
    split_goal(list(ob.hyps), ob.goal, gs)
    subs = []
    for hs, g in gs:
        hs = flat_hyps(hs)
        if not any(z3.is_false(h) for h in hs):
            subs.append((hs, g))
    if not subs:
        return ('proved', 'simplifier', time.time() - t0, '')
    for i, (hs, g) in enumerate(subs):
        ok = sat = False
        info = ''
        seen_t = set()
        for tag, text, ms, opts in attempts(ctx, hs, g):
            if deadline is not None and time.time() > deadline:
                return ('skipped', '', time.time() - t0, 'time budget of the check')
            ms = int(ms * scale)
            be = 'cvc5' if opts is None else 'z3'
            kk = (text, str(opts))
            if kk in seen_t:
                continue
            seen_t.add(kk)
            try:
                if be == 'z3':
                    r, info = _run_z3(text, ms, opts)
                else:
                    r, info = _run_cvc5(text, ms)
            except Exception as e:          # solver error: undecided
                r, info = 'unknown', 'solver error: %r' % (e,)
            if r == 'unsat':
                ok = True
                backends.add(be)
                how.append(tag)
                break
            if r == 'sat' and tag == 'full':
                sat = True
                break
        if not ok:
            return ('refuted' if sat else 'unknown', '+'.join(sorted(backends)) or 'z3', time.time() - t0,
                    'subgoal %d of %d: %s' % (i + 1, len(subs), info))
    return ('proved', '+'.join(sorted(backends)) or 'trivial', time.time() - t0, ' '.join(how))


def witnesses(hs, g, ctx, limit=10):
    """the existential goal as a disjunction of instances for ground integer terms (a stronger goal)"""
    if not (z3.is_quantifier(g) and g.is_exists()):
        return None
    nv = g.num_vars()
    if nv > 2 or any(g.var_sort(i) != I for i in range(nv)):
        return None
    score = {}
    keep = {}

    def visit(t, w):
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.sort() == I and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    k = x.get_id()
                    keep[k] = x
                    score[k] = score.get(k, 0) + w * (2 if x.num_args() == 0 else 1)
                st.extend(x.children())
    sel = closest(hs, g, 24, ctx)
    visit(g, 6)
    for h in sel:
        nm = decl_names(h)
        visit(h, 1 + (2 if any(n.startswith('sk!') for n in nm) else 0))
    c = [keep[k] for k in sorted(score, key=lambda k: (-score[k], k))][:limit if nv == 1 else 5]
    if not c:
        return None
    out = []
    import itertools
    for ws in itertools.product(c, repeat=nv):
        out.append(z3.substitute_vars(g.body(), *reversed(ws)))
    # a sum of a ground term and a constant is a frequent witness
    if nv == 1:
        for w in c[:4]:
            out.append(z3.substitute_vars(g.body(), w - 1))
            out.append(z3.substitute_vars(g.body(), w + 1))
    return z3.Or(*out)


def discharge(ctx, scale=1.0, workers=None, deadline=None, known=None):
    """prove every obligation of the context, in forked workers; known: {index: name} already proved"""
    obs = ctx.obligations
    known = known or {}
    todo, same = [], {}
    for i, ob in enumerate(obs):
        if ob.hyps is None:
            ob.result, ob.backend = 'proved', 'simplifier'
        elif known.get(i) == ob.name:
            ob.result, ob.backend = 'proved', 'z3'
        else:
            key = (ob.goal.get_id(), tuple(h.get_id() for h in ob.hyps))
            if key in same:
                same[key].append(i)
            else:
                same[key] = [i]
                todo.append(key)
    if not todo:
        return obs
    workers = min(workers or int(os.environ.get('DV_WORKERS', '8')), len(todo))
    nxt = mp.Value('i', 0)
    conns = []
    for w in range(workers):
        a, b = mp.Pipe(False)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                while True:
                    with nxt.get_lock():
                        j = nxt.value
                        nxt.value += 1
                    if j >= len(todo):
                        break
                    i = same[todo[j]][0]
                    try:
                        r = solve(ctx, obs[i], scale, deadline)
                    except Exception as e:
                        r = ('unknown', '', 0.0, 'prover error: %r' % (e,))
                    b.send((j, r))
            finally:
                os._exit(0)
        b.close()
        conns.append((a, pid))
    got = {}
    live = list(conns)
    while live:
        for c in mpc.wait([a for a, _ in live], 1.0):
            try:
                j, r = c.recv()
                got[j] = r
            except EOFError:
                for a, pid in live:
                    if a is c:
                        os.waitpid(pid, 0)
                live = [x for x in live if x[0] is not c]
    for j, key in enumerate(todo):
        r = got.get(j, ('skipped', '', 0.0, 'worker ended'))
        for i in same[key]:
            obs[i].result, obs[i].backend, obs[i].time, obs[i].info = r
    return obs


def consistent(ctx, hyps, ms=3000):
    """False if the hypotheses are contradictory (vacuous contract)"""
    hs = flat_hyps(list(hyps))
    ax = axioms_for(ctx, hs, z3.BoolVal(False))
    s = z3.Solver()
    s.set('timeout', ms)
    for h in hs + ax:
        s.add(h)
    return s.check() != z3.unsat
