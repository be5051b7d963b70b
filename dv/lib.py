"""Models of the Python built-ins and of the numpy / random / math / time / csv / copy functions used
by the repository.  Everything here is part of the trusted base (assumed contracts)."""
import ast
from fractions import Fraction
import z3
from .core import *
from .seqs import *
from . import interp as IP
from .interp import (Builtin, MethodV, ExcType, ExcV, ExtModule, FuncV, BoundV, ClassV, EXC_PARENT, mkconcat,
                     mk_filter, DeadPath)

SQRT = z3.Function('sqrtf', RS, RS)
NONNEG_DECLS.add('sqrtf')


# ------------------------------------------------------------------ helpers
def conc(v):
    """concrete int if known"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return int(v)
    if is_sym(v) and v.sort() == I:
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
    return None


def length(it, v):
    if isinstance(v, tuple):
        return len(v)
    if isinstance(v, str):
        return len(v)
    c = it.content(v)
    if isinstance(c, Seq):
        return c.n
    if isinstance(c, Nd):
        if c.ndim == 0:
            raise Unsupported("len of a scalar array")
        return c.shape[0]
    if isinstance(c, DLit):
        return len(c.items)
    if isinstance(c, Dct):
        if c.keys is not None:
            return c.keys.n
        raise Unsupported("size of a symbolic dictionary %s" % type(c).__name__)
    if isinstance(c, SetC):
        if c.seq is not None and c.distinct:
            return c.seq.n
        if c.seq is not None and isinstance(c.seq, Lit) and c.seq.n <= 1:
            return c.seq.n
        return set_size(it, c)
    ln = getattr(c, 'length', None)
    if ln is not None:
        return ln()
    raise Unsupported("len of %s" % type(c).__name__)


def set_size(it, c):
    """number of distinct elements: characterised only by 0 <= n <= len(seq)
    and n = len(seq) iff no element is repeated"""
    if c.seq is None:
        raise Unsupported("size of a symbolic set")
    return distinct_count(it, c.seq)


def distinct_count(it, s):
    ctx = it.ctx
    n = ctx.fresh('ndist', I)
    ctx.assume(b_and(cmp_('<=', 0, n), cmp_('<=', n, s.n)))
    i, j = ctx.bound('i'), ctx.bound('j')
    dup = z3.Exists([i, j], T(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, s.n), veq(s.at(i), s.at(j)))))
    ctx.assume(T(cmp_('==', n, s.n)) == z3.Not(dup))
    return n


def elem(it, v, c, k):
    """element k (already bounds-checked) of container value v with content c"""
    x = c.at(k) if isinstance(c, Seq) else seq_of(c).at(k)
    return own(it, x, v, k, c)


def own(it, x, v, k, c):
    if isinstance(x, Frozen) and isinstance(v, (Ref, Frozen)) and x.origin is None and not isinstance(c, Nd):
        return Frozen(x.content, (v, k, c), x.kind)
    return x


def norm_index(it, i, n, what='index'):
    """python index i of a sequence of length n -> nonnegative index; emits the bounds obligation"""
    ctx = it.ctx
    if isinstance(i, IteV):
        raise Unsupported("index of unknown type")
    if isinstance(i, (Fraction, XR)) or (is_sym(i) and i.sort() == RS):
        it.ctx.oblige(what + " is an integer", False)
        raise DeadPath()
    ci = conc(i)
    if ci is not None:
        i = ci
        if ci < 0:
            ctx.oblige(what + " in bounds", cmp_('<=', -ci, n))
            return arith('+', n, ci)
        cn = conc(n)
        ctx.oblige(what + " in bounds", cmp_('<', ci, n if cn is None else cn))
        return ci
    i = num(i)
    if is_nonneg_syn(i) or ctx.prove_quick(cmp_('<=', 0, i), ms=400):
        ctx.oblige(what + " in bounds", b_and(cmp_('<=', 0, i), cmp_('<', i, n)))
        return i
    ctx.oblige(what + " in bounds", b_and(cmp_('<=', arith('-', 0, n), i), cmp_('<', i, n)))
    return ite(cmp_('<', i, 0), arith('+', n, i), i)


def slice_seq(it, s, sl):
    ctx = it.ctx
    n = s.n
    step = 1 if sl.step is None else sl.step
    cs = conc(step)
    if cs == -1:
        if sl.start is None and sl.stop is None:
            r = Stride(s, arith('-', n, 1), -1, n)
            r.full = True
            return r
        raise Unsupported("reverse slice with bounds")
    if cs is not None and cs <= 0:
        raise Unsupported("negative slice step")

    def clamp(b, dflt):
        if b is None:
            return dflt
        cb = conc(b)
        cn = conc(n)
        if cb is not None and cn is not None:
            return max(0, min(cn, cb if cb >= 0 else cn + cb))
        if cb is not None and cb < 0:
            t = arith('+', n, cb)
            return ite(cmp_('<', t, 0), 0, t)
        if cb == 0:
            return 0
        b = num(b)
        if is_sym(b) and is_sym(n) and b.eq(n):
            return n
        if cb is None and not ctx.prove_quick(cmp_('<=', 0, b), ms=400):
            b = ite(cmp_('<', b, 0), ite(cmp_('<', arith('+', n, b), 0), 0, arith('+', n, b)), b)
        if ctx.prove_quick(cmp_('<=', b, n), ms=400):
            return b
        return ite(cmp_('<', n, b), n, b)
    lo, hi = clamp(sl.start, 0), clamp(sl.stop, n)
    full_hi = sl.stop is None or (is_sym(hi) and is_sym(n) and hi.eq(n)) or hi is n
    if cs == 1:
        if isinstance(lo, int) and lo == 0 and full_hi:
            return s
        ln = arith('-', hi, lo)
        if not ctx.prove_quick(cmp_('<=', 0, ln), ms=400):
            ln = ite(cmp_('<', ln, 0), 0, ln)
        if isinstance(s, Lit) and conc(lo) is not None and conc(ln) is not None:
            return Lit(s.items[conc(lo):conc(lo) + conc(ln)])
        return Stride(s, lo, 1, ln)
    if cs is None:
        ctx.oblige("slice step is positive", cmp_('<', 0, step))
    if isinstance(s, Lit) and conc(lo) is not None and conc(hi) is not None and cs is not None:
        return Lit(s.items[conc(lo):conc(hi):cs])
    ln = stride_len(it, lo, hi, step)
    r = Stride(s, lo, step, ln)
    if cs == 2 and full_hi and isinstance(lo, int) and lo in (0, 1):
        r.halves = True
        r.even_n = stride_len(it, 0, n, 2)
    return r


def stride_len(it, lo, hi, step):
    """number of q >= 0 with lo + q*step < hi"""
    cl, ch, cs = conc(lo), conc(hi), conc(step)
    if None not in (cl, ch, cs):
        return len(range(cl, ch, cs))
    d = arith('-', hi, lo)
    if cs is not None:
        t = arith('//', arith('+', d, cs - 1), cs)
        return ite(cmp_('<', 0, d), t, 0)
    deal_axioms(it, hi, step)
    return DEALLEN(IT(lo), IT(hi), IT(step))


def deal_axioms(it, hi, step):
    """arithmetic of positions with a symbolic distance n (proved in lemmas/Sums.lean):
    dealpos(i,q,n) = i+q*n, dealrow(k,n) = k mod n, dealidx(k,n) = k div n, deallen(i,h,n) = max(0, ceil((h-i)/n))"""
    ctx = it.ctx
    done = ctx.__dict__.setdefault('deal_done', set())
    i, q, n, h, k = (ctx.bound(c) for c in 'iqnhk')
    P, L, W, X = DEALPOS, DEALLEN, DEALROW, DEALIDX
    if not done:
        done.add('')
        p, l = P(i, q, n), L(i, h, n)
        A, N = z3.And, z3.Implies
        ctx.axiom(['dealpos'], z3.ForAll([i, q, n], A(p == i + q * n, N(A(0 <= i, i < n, q >= 0), A(p >= 0, W(p, n) == i, X(p, n) == q))), patterns=[p]))
        for t in (W(k, n), X(k, n)):
            ctx.axiom(['dealpos', t.decl().name()], z3.ForAll([k, n], N(A(n >= 1, k >= 0), A(0 <= W(k, n), W(k, n) < n, X(k, n) >= 0, P(W(k, n), X(k, n), n) == k)), patterns=[t]))
        ctx.axiom(['deallen'], z3.ForAll([i, h, n], N(n >= 1, A(l >= 0, N(h <= i, l == 0), N(h > i, A((l - 1) * n < h - i, h - i <= l * n, l >= 1)))), patterns=[l]))
        ctx.axiom(['deallen', 'dealpos'], z3.ForAll([i, q, h, n], N(A(n >= 1, q >= 0), (q < l) == (p < h)), patterns=[z3.MultiPattern(p, l)]))
    scoped = {str(s.k) for s in ctx.scopes if s.k is not None}
    key = (str(hi), str(step))
    if key not in done and not (free_names(hi) | free_names(step)) & scoped:
        done.add(key)
        total = ctx.sum(step, lambda b: L(IT(b), IT(hi), IT(step)))
        ctx.axiom(['deallen', total.decl().name()], T(b_implies(b_and(cmp_('>=', step, 1), cmp_('>=', hi, 0)), cmp_('==', total, hi))))


def free_names(v):
    out, todo = set(), [v] if is_sym(v) else []
    while todo:
        x = todo.pop()
        if z3.is_app(x):
            if x.num_args() == 0:
                out.add(str(x))
            todo.extend(x.children())
    return out


# ------------------------------------------------------------------ item access
def getitem(it, obj, idx):
    if isinstance(obj, IteV):
        return it.lift2(obj, lambda o: getitem(it, o, idx))
    if isinstance(idx, IteV):
        return it.lift2(idx, lambda i: getitem(it, obj, i))
    m = getattr(obj, 'get_item', None)
    if m is not None:
        return m(it, idx)
    if isinstance(obj, str):
        if isinstance(idx, int):
            return obj[idx]
        if isinstance(idx, slice) and all(x is None or isinstance(x, int) for x in (idx.start, idx.stop, idx.step)):
            return obj[idx]
        raise Unsupported("string index")
    c = it.content(obj)
    if isinstance(c, Nd):
        return nd_getitem(it, obj, c, idx)
    if isinstance(c, Dct):
        return dict_get(it, obj, c, idx)
    if isinstance(c, Seq):
        if isinstance(idx, slice):
            s = slice_seq(it, c, idx)
            if isinstance(obj, tuple):
                return tuple(s.items) if isinstance(s, Lit) else Frozen(s)
            return it.new_list(IP_freeze_share(s))
        k = norm_index(it, idx, c.n, "list index")
        return elem(it, obj, c, k)
    m = getattr(c, 'get_item', None)
    if m is not None:
        return m(it, obj, idx)
    raise Unsupported("subscript of %s" % type(c).__name__)


def IP_freeze_share(s):
    return s


def set_pred(it, c):
    """the membership predicate of a set of integers under a name of its own"""
    p = getattr(c, 'pred', None)
    if p is None:
        ctx = it.ctx
        x = ctx.bound('x')
        body = T(c.mem(x))
        f = ctx.fresh_fn('in_set', [I], B)
        ctx.assume(z3.ForAll([x], f(x) == body, patterns=[f(x)]))
        if c.seq is not None and not isinstance(c.seq, Lit):
            k = ctx.bound('k')
            q = c.seq
            n, e, g = (q.src_n, q.val(k), q.cond(k)) if isinstance(q, Filter) else (q.n, q.at(k), True)
            if not (is_sym(e) and e.sort() == I):
                raise Unsupported("set of other values as a key")
            g = T(b_implies(b_and(cmp_('<=', 0, k), cmp_('<', k, n), g), f(e)))
            own_ = z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(x.eq(k) for x in subterms(e))
            ctx.assume(z3.ForAll([k], g, patterns=[e]) if own_ else z3.ForAll([k], g))
        p = c.pred = lambda x: f(IT(x))
    return p


def subterms(e):
    out, todo = [], [e]
    while todo:
        x = todo.pop()
        out.append(x)
        todo.extend(x.children())
    return out


def dkey(it, key):
    """keys are kept by value"""
    if isinstance(key, tuple):
        return tuple(dkey(it, x) for x in key)
    if it.is_container(key) and it.kind(key) == 'set':
        c = it.content(key)
        if not isinstance(c, SetC):
            raise Unsupported("set as a key")
        if not getattr(c, 'frozen', False):
            it.raise_exc('TypeError', 'unhashable key')
        set_pred(it, c)
        return Frozen(c, None, 'set')
    return key


def dict_get(it, obj, c, key):
    key = dkey(it, key)
    it.ctx.oblige("dictionary key present", c.has(key))
    return own(it, c.get(key), obj, key, c)


def is_full(s):
    return isinstance(s, slice) and s.start is None and s.stop is None and s.step is None


def nd_getitem(it, obj, c, idx):
    ctx = it.ctx
    if not isinstance(idx, tuple):
        idx = (idx,)
    idx = list(idx)
    if len(idx) > c.ndim:
        it.raise_exc('IndexError', 'too many indices')
    # boolean mask / fancy index on the first axis
    i0 = idx[0]
    if it.is_container(i0) and not isinstance(i0, str):
        rest = idx[1:]
        if not all(is_full(x) for x in rest):
            raise Unsupported("fancy index mixed with other indices")
        ic = it.content(i0)
        if isinstance(ic, Nd) and ic.dtype == 'b':
            if c.ndim != 1 or ic.ndim != 1:
                raise Unsupported("mask of rank > 1")
            ctx.oblige("mask has the array's length", cmp_('==', ic.shape[0], c.shape[0]))
            k = ctx.bound('m')
            cond = ic.f(k)
            if isinstance(cond, bool):
                return obj if cond else it.new_nd(Nd((0,), c.f, c.dtype))
            s = mk_filter(ctx, c.shape[0], k, cond, c.f(k))
            return it.new_nd(Nd((s.n,), lambda q: s.at(q), c.dtype, seq=s))
        if isinstance(ic, Nd) and ic.ndim != 1:
            raise Unsupported("fancy index of rank > 1")
        s = seq_of(ic)
        if isinstance(ic, Seq):
            first = s.at(0) if isinstance(s, Lit) and s.n > 0 else None
            if first is not None and isinstance(first, bool):
                raise Unsupported("list mask")
        ok = ctx.forall(s.n, lambda k: b_and(cmp_('<=', arith('-', 0, c.shape[0]), s.at(k)),
                                             cmp_('<', s.at(k), c.shape[0])))
        ctx.oblige("fancy indices in bounds", ok)
        k = ctx.bound('x')
        ctx.push(k, b_and(cmp_('<=', 0, k), cmp_('<', k, s.n)))
        nn = ctx.prove_quick(cmp_('<=', 0, s.at(k)), ms=400)
        ctx.pop(keep=False)
        if not nn:
            # prove non-negativity with the quantified facts, as an obligation would
            nn = nonneg_elems(it, s)

        def at(q):
            e = s.at(q)
            return e if nn else ite(cmp_('<', e, 0), arith('+', c.shape[0], e), e)
        sel = Fn(s.n, at) if not nn else s
        return it.new_nd(nd_take(c, sel))
    shape, getters, n_out = [], [], 0
    for ax, x in enumerate(idx + [slice(None)] * (c.ndim - len(idx))):
        if isinstance(x, slice):
            if is_full(x):
                shape.append(c.shape[ax])
                getters.append((n_out, None))
            else:
                st = slice_seq(it, Rng(c.shape[ax]), x)
                shape.append(st.n)
                getters.append((n_out, st))
            n_out += 1
        elif it.is_container(x):
            raise Unsupported("fancy index on a later axis")
        elif x is None:
            raise Unsupported("newaxis")
        else:
            k = norm_index(it, x, c.shape[ax], "array index")
            getters.append((None, k))
    if n_out == 0:
        return c.f(*[g[1] for g in getters])

    def f(*q):
        return c.f(*[(g[1] if g[0] is None else (q[g[0]] if g[1] is None else g[1].at(q[g[0]]))) for g in getters])
    seq = None
    if n_out == 1 and c.ndim == 1 and isinstance(idx[0], slice):
        base = c.seq if c.seq is not None else Fn(c.shape[0], c.f)
        seq = slice_seq(it, base, idx[0])
        if c.seq is None and not isinstance(seq, Stride):
            seq = None
    return Frozen(Nd(shape, f, c.dtype, seq=seq), None, 'nd')


def nonneg_elems(it, s):
    """all elements are nonnegative (decided with the full fact base)"""
    ctx = it.ctx
    goal = ctx.forall(s.n, lambda k: cmp_('<=', 0, s.at(k)))
    if goal is True:
        return True
    return ctx.prove_full(goal, ms=2000)


def nd_take(c, sel):
    if c.ndim == 1:
        return Nd((sel.n,), lambda q: c.f(sel.at(q)), c.dtype)
    return Nd((sel.n,) + tuple(c.shape[1:]), lambda q, *r: c.f(sel.at(q), *r), c.dtype)


def setitem(it, obj, idx, v):
    if isinstance(obj, Opaque) and obj.what == 'os.environ':
        return
    if isinstance(obj, IteV):
        it.branch(obj.c, lambda: setitem(it, obj.a, idx, v), lambda: setitem(it, obj.b, idx, v))
        return
    m = getattr(obj, 'set_item', None)
    if m is not None:
        m(it, idx, v)
        return
    if isinstance(obj, tuple):
        it.raise_exc('TypeError', 'tuple assignment')
    c = it.content(obj)
    if isinstance(c, Nd):
        nd_setitem(it, obj, c, idx, v)
        return
    if isinstance(c, Dct):
        dict_set(it, obj, c, idx, v)
        return
    if isinstance(c, Seq):
        if it.kind(obj) not in ('list',):
            it.raise_exc('TypeError', 'item assignment')
        if isinstance(idx, slice):
            raise Unsupported("slice assignment on a list")
        k = norm_index(it, idx, c.n, "list index")
        if isinstance(c, Lit) and isinstance(k, int):
            items = list(c.items)
            items[k] = v
            it.set_content(obj, Lit(items))
            return
        if isinstance(c, Store) and same_idx(c.i, k):
            c = c.base
        it.set_content(obj, Store(c, k, v))
        return
    raise Unsupported("item assignment on %s" % type(c).__name__)


def same_idx(a, b):
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    return not is_sym(a) and not is_sym(b) and a == b


def dict_set(it, obj, c, key, v):
    if it.is_container(key) and it.kind(key) in ('list', 'nd', 'dict'):
        it.raise_exc('TypeError', 'unhashable key')
    key = dkey(it, key)
    if isinstance(c, DLit) and not is_symv(key):
        d = dict(c.items)
        d[key] = v
        it.set_content(obj, DLit(d))
        return
    if isinstance(c, DStore) and _same_key(c.key, key):
        c = c.base
    it.set_content(obj, DStore(c, key, v))


def _same_key(a, b):
    try:
        return veq(a, b) is True
    except Unsupported:
        return False


def coerce(dtype, v):
    if isinstance(v, IteV):
        raise Unsupported("array element of unknown type")
    if not is_numlike(v):
        raise Unsupported("array element that is not a number")
    if dtype == 'f':
        return toreal(v)
    if dtype == 'b':
        return v if is_boolv(v) else cmp_('!=', v, 0)
    if dtype == 'i':
        if is_realv(v):
            return trunc(v)
        return num(v)
    return v


def trunc(v):
    v = num(v)
    if isinstance(v, Fraction):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, XR):
        raise Unsupported("int of infinity")
    if v.sort() == I:
        return v
    return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))


def nd_setitem(it, obj, c, idx, v):
    if not isinstance(idx, tuple):
        idx = (idx,)
    if len(idx) == c.ndim and not any(isinstance(x, slice) or it.is_container(x) for x in idx):
        ks = [norm_index(it, x, c.shape[a], "array index") for a, x in enumerate(idx)]
        vv = coerce(c.dtype, v)
        if isinstance(c, NdStore) and all(same_idx(a, b) for a, b in zip(c.idx, ks)):
            c = c.base
        it.set_content(obj, NdStore(c, ks, vv))
        return
    # slices: full slices and integers only
    idx = list(idx) + [slice(None)] * (c.ndim - len(idx))
    if any(it.is_container(x) for x in idx):
        if len(idx) == 1:
            ic = it.content(idx[0])
            if isinstance(ic, Nd) and ic.dtype == 'b' and ic.ndim == 1 and c.ndim == 1:
                if it.is_container(v):
                    raise Unsupported("masked assignment of an array")
                vv = coerce(c.dtype, v)
                it.set_content(obj, Nd(c.shape, lambda q: ite(ic.f(q), vv, c.f(q)), c.dtype))
                return
        raise Unsupported("fancy assignment")
    fixed = {}
    free = []
    for a, x in enumerate(idx):
        if isinstance(x, slice):
            if not is_full(x):
                raise Unsupported("partial slice assignment")
            free.append(a)
        else:
            fixed[a] = norm_index(it, x, c.shape[a], "array index")
    if it.is_container(v):
        vc = it.content(v)
        vn = vc if isinstance(vc, Nd) else nd_of_seq(vc)
        if vn.ndim != len(free):
            raise Unsupported("broadcast in slice assignment")
        for d, a in zip(vn.shape, free):
            it.ctx.oblige("assigned shape matches", cmp_('==', d, c.shape[a]))

        def val(q):
            return vn.f(*[q[a] for a in free])
    else:
        def val(q):
            return v

    def f(*q):
        cond = b_and(*[cmp_('==', q[a], k) for a, k in fixed.items()])
        return ite(cond, coerce(c.dtype, val(q)), c.f(*q))
    r = Nd(c.shape, f, c.dtype)
    r.partial = (c, fixed, free, val)
    it.set_content(obj, r)


def nd_inplace(it, cur, op, v):
    c = it.content(cur)
    r = binop(it, op, cur, v)
    rc = it.content(r)
    if c.dtype == 'i' and rc.dtype == 'f':
        raise Unsupported("in-place update changes the dtype")
    it.set_content(cur, Nd(c.shape, rc.f, c.dtype))


def delitem(it, obj, idx):
    c = it.content(obj)
    if isinstance(c, Dct):
        dict_pop(it, obj, c, idx)
        return
    if isinstance(c, Seq) and it.kind(obj) == 'list' and not isinstance(idx, slice):
        k = norm_index(it, idx, c.n, "list index")
        if isinstance(c, Lit) and isinstance(k, int):
            it.set_content(obj, Lit(c.items[:k] + c.items[k + 1:]))
        else:
            it.set_content(obj, Del(c, k))
        return
    raise Unsupported("del on %s" % type(c).__name__)


def dict_pop(it, obj, c, key):
    key = dkey(it, key)
    it.ctx.oblige("dictionary key present", c.has(key))
    v = c.get(key)
    if isinstance(c, DLit) and not is_symv(key):
        d = dict(c.items)
        d.pop(key, None)
        it.set_content(obj, DLit(d))
    else:
        it.set_content(obj, DPop(c, key))
    return v


def list_extend(it, obj, other):
    c = it.content(obj)
    s = it.iter_seq(other)
    if it.kind(obj) != 'list':
        raise Unsupported("extend of %s" % it.kind(obj))
    it.set_content(obj, mkconcat(c, s))


# ------------------------------------------------------------------ operators
OPS = {'Add': '+', 'Sub': '-', 'Mult': '*', 'Div': '/', 'FloorDiv': '//', 'Mod': '%'}


def as_nd(it, v):
    if it.is_container(v):
        c = it.content(v)
        if isinstance(c, Nd):
            return c
        if isinstance(c, Seq):
            return nd_of_seq(c)
    return None


def broadcast(it, f, a, b, dtype=None, what='array operation'):
    """elementwise f over arrays/scalars"""
    na, nb = as_nd(it, a), as_nd(it, b)
    ctx = it.ctx
    if na is not None and nb is not None:
        if na.ndim == nb.ndim:
            for x, y in zip(na.shape, nb.shape):
                ctx.oblige("%s: shapes match" % what, cmp_('==', x, y))
            return Nd(na.shape, lambda *q: f(na.f(*q), nb.f(*q)), dtype or join_dt(na.dtype, nb.dtype))
        big, small = (na, nb) if na.ndim > nb.ndim else (nb, na)
        off = big.ndim - small.ndim
        for x, y in zip(big.shape[off:], small.shape):
            ctx.oblige("%s: shapes match" % what, cmp_('==', x, y))
        if big is na:
            g = lambda *q: f(na.f(*q), nb.f(*q[off:]))
        else:
            g = lambda *q: f(na.f(*q[off:]), nb.f(*q))
        return Nd(big.shape, g, dtype or join_dt(na.dtype, nb.dtype))
    if na is not None:
        return Nd(na.shape, lambda *q: f(na.f(*q), b), dtype or join_dt(na.dtype, dt(b)))
    return Nd(nb.shape, lambda *q: f(a, nb.f(*q)), dtype or join_dt(dt(a), nb.dtype))


def dt(v):
    if is_boolv(v):
        return 'b'
    return 'f' if is_realv(v) else 'i'


def join_dt(a, b):
    o = 'bif'
    return o[max(o.index(a), o.index(b))] if a in o and b in o else 'f'


def binop(it, op, a, b):
    ctx = it.ctx
    if op == 'Neg':
        if isinstance(a, IteV):
            return it.lift2(a, lambda x: binop(it, op, x, None))
        m = getattr(a, 'neg', None)
        if m is not None:
            return m(it)
        n = as_nd(it, a) if it.is_container(a) else None
        if n is not None:
            return it.new_nd(Nd(n.shape, lambda *q: neg(n.f(*q)), 'i' if n.dtype == 'b' else n.dtype))
        return neg(a)
    if isinstance(a, IteV):
        return it.lift2(a, lambda x: binop(it, op, x, b))
    if isinstance(b, IteV):
        return it.lift2(b, lambda x: binop(it, op, a, x))
    for x, y, left in ((a, b, True), (b, a, False)):
        m = getattr(x, 'bin', None)
        if m is not None:
            r = m(it, op, y, left)
            if r is not None:
                return r
    ka, kb = it.kind(a), it.kind(b)
    if op == 'RShift' and is_boolv(a) and is_boolv(b) and getattr(it, 'grb', None) is not None:
        return b_implies(a, b)
    if op == 'Add':
        if ka == 'str' and kb == 'str':
            return mkstr(str_parts(a) + str_parts(b))
        if ka == 'list' and kb == 'list':
            return it.new_list(mkconcat(it.content(a), it.content(b)))
        if ka == 'tuple' and kb == 'tuple':
            return a + b
        if 'str' in (ka, kb) or ('list' in (ka, kb) and 'nd' not in (ka, kb)):
            it.raise_exc('TypeError', 'operand types %s and %s' % (ka, kb))
    if op == 'Mult':
        for x, y, kx in ((a, b, ka), (b, a, kb)):
            if kx == 'list' and it.kind(y) in ('int', 'bool'):
                return it.new_list(repeat(it, it.content(x), y))
            if kx == 'str' and it.kind(y) in ('int', 'bool'):
                cy = conc(y) if not (is_sym(y) and y.sort() == B) else None
                if cy is not None:
                    return x * cy if isinstance(x, str) else mkstr(str_parts(x) * cy)
                if is_sym(y) and y.sort() == B:
                    return ite(y, x, '')
                raise Unsupported("string repetition")
    if op == 'Mod' and ka == 'str':
        return percent_format(it, a, b)
    if op == 'Pow':
        cb = conc(b)
        if cb == 2:
            return binop(it, 'Mult', a, a)
        if isinstance(b, Fraction) and b == Fraction(1, 2) and is_numlike(a):
            return sqrt(it, a)
        if cb is not None and conc(a) is not None and cb >= 0:
            return conc(a) ** cb
        raise Unsupported("power")
    if op in ('BitAnd', 'BitOr'):
        return bitop(it, op, a, b)
    if op == 'Sub' and ka == 'set' and kb == 'set':
        sa, sb = it.content(a), it.content(b)
        return it.new('set', SetC(lambda x: b_and(sa.mem(x), b_not(sb.mem(x)))))
    if op not in OPS:
        raise Unsupported("operator " + op)
    isnd = (ka == 'nd' or kb == 'nd')
    if isnd:
        f = lambda x, y: scalar_op(it, op, x, y, in_array=True)
        dtype = None
        na, nb = as_nd(it, a), as_nd(it, b)
        if op == 'Div':
            dtype = 'f'
        elif op == 'Mult' and (na is not None and nb is not None) and na.dtype == 'b' and nb.dtype == 'b':
            dtype = 'b'
            f = lambda x, y: b_and(x, y)
        elif op in ('Add', 'Sub'):
            d1 = na.dtype if na is not None else dt(a)
            d2 = nb.dtype if nb is not None else dt(b)
            if d1 == 'b' and d2 == 'b':
                raise Unsupported("boolean array addition")
        return it.new_nd(broadcast(it, f, a, b, dtype))
    if not (is_numlike(a) and is_numlike(b)):
        if ka in ('none', 'list', 'dict', 'tuple', 'str') or kb in ('none', 'list', 'dict', 'tuple', 'str'):
            it.raise_exc('TypeError', 'operand types %s and %s' % (ka, kb))
        raise Unsupported("operator %s on %s and %s" % (op, ka, kb))
    return scalar_op(it, op, a, b)


def scalar_op(it, op, a, b, in_array=False):
    o = OPS[op]
    if o in ('/', '//', '%'):
        nz = cmp_('!=', b, 0)
        if not in_array:
            it.ctx.oblige("divisor is nonzero", nz)
            if o == '/' and isinstance(b, XR):
                it.ctx.oblige("divisor is finite", b_not(b_or(b.p, b.n)))
                b = num(b.v)
        if nz is False:
            if in_array:
                raise Unsupported("array division by zero")
            raise DeadPath()
        if o in ('//', '%') and (is_realv(a) or is_realv(b)):
            if isinstance(a, Fraction) and isinstance(b, (Fraction, int)) and not is_sym(b):
                return Fraction(a // b) if o == '//' else a - b * (a // b)
            raise Unsupported("real floor division")
        if o in ('//', '%') and is_sym(num(b)):
            if not it.ctx.prove_quick(cmp_('<', 0, b), ms=500):
                raise Unsupported("floor division by a value of unknown sign")
        elif o in ('//', '%') and is_sym(num(a)) and num(b) < 0:
            raise Unsupported("floor division by a negative value")
    return arith(o, a, b)


def repeat(it, s, n):
    cn = conc(n)
    if cn is not None and isinstance(s, Lit):
        r = Lit(s.items * max(cn, 0))
        r.shared = any(isinstance(x, Ref) for x in s.items)
        return r
    if isinstance(s, Lit) and s.n == 1:
        v = s.items[0]
        nn = IT(n)
        if not it.ctx.prove_quick(nn >= 0, ms=400):
            nn = z3.If(nn >= 0, nn, z3.IntVal(0))
        fv = it.freeze(v)
        r = Fn(nn, lambda k: fv)
        if isinstance(fv, Frozen):
            r.shared = True
        return r
    raise Unsupported("list repetition")


def bitop(it, op, a, b):
    f = (lambda x, y: b_and(x, y)) if op == 'BitAnd' else (lambda x, y: b_or(x, y))
    if it.kind(a) == 'nd' or it.kind(b) == 'nd':
        na, nb = as_nd(it, a), as_nd(it, b)
        if (na is None or na.dtype == 'b') and (nb is None or nb.dtype == 'b'):
            return it.new_nd(broadcast(it, f, a, b, 'b'))
        raise Unsupported("bit operation")
    if is_boolv(a) and is_boolv(b):
        return f(a, b)
    if it.kind(a) == 'set' and it.kind(b) == 'set':
        sa, sb = it.content(a), it.content(b)
        return it.new('set', SetC(lambda x: f(sa.mem(x), sb.mem(x))))
    raise Unsupported("bit operation")


def invert(it, v):
    if it.kind(v) == 'nd':
        c = it.content(v)
        if c.dtype == 'b':
            return it.new_nd(Nd(c.shape, lambda *q: b_not(c.f(*q)), 'b'))
    if is_boolv(v):
        raise Unsupported("~bool")
    raise Unsupported("~")


CMP = {'Lt': '<', 'LtE': '<=', 'Gt': '>', 'GtE': '>=', 'Eq': '==', 'NotEq': '!='}


def compare(it, op, a, b):
    if isinstance(a, IteV):
        return it.lift2(a, lambda x: compare(it, op, x, b))
    if isinstance(b, IteV):
        return it.lift2(b, lambda x: compare(it, op, a, x))
    if op in ('In', 'NotIn'):
        r = contains(it, b, a)
        return r if op == 'In' else b_not(r)
    if op in ('Is', 'IsNot'):
        r = identical(it, a, b)
        return r if op == 'Is' else b_not(r)
    for x, y, left in ((a, b, True), (b, a, False)):
        m = getattr(x, 'cmp', None)
        if m is not None:
            r = m(it, CMP[op], y, left)
            if r is not None:
                return r
    o = CMP[op]
    ka, kb = it.kind(a), it.kind(b)
    if ka == 'nd' or kb == 'nd':
        if ka in ('str', 'none') or kb in ('str', 'none'):
            raise Unsupported("array comparison with %s/%s" % (ka, kb))
        if ka == 'list' or kb == 'list':
            pass
        return it.new_nd(broadcast(it, lambda x, y: cmp_(o, x, y), a, b, 'b', what='comparison'))
    if o in ('==', '!='):
        r = equal(it, a, b)
        return r if o == '==' else b_not(r)
    if is_numlike(a) and is_numlike(b):
        return cmp_(o, a, b)
    if ka == 'tuple' and kb == 'tuple':
        return lex(o, a, b)
    if ka == 'str' and kb == 'str' and isinstance(a, str) and isinstance(b, str):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
    if ka == 'set' and kb == 'set' and o in ('<=', '>='):
        x, y = (a, b) if o == '<=' else (b, a)
        sx, sy = it.content(x), it.content(y)
        if sx.seq is not None:
            return it.ctx.forall(sx.seq.n, lambda k: sy.mem(sx.seq.at(k)))
        k = it.ctx.bound('e')
        return z3.ForAll([k], T(b_implies(sx.mem(k), sy.mem(k))))
    if ka in ('none', 'str', 'list', 'dict') or kb in ('none', 'str', 'list', 'dict'):
        it.raise_exc('TypeError', 'comparison of %s and %s' % (ka, kb))
    raise Unsupported("comparison of %s and %s" % (ka, kb))


def lex(o, a, b):
    if len(a) == 1:
        return cmp_(o, a[0], b[0])
    strict = '<' if o in ('<', '<=') else '>'
    return b_or(cmp_(strict, a[0], b[0]), b_and(cmp_('==', a[0], b[0]), lex(o, a[1:], b[1:])))


def identical(it, a, b):
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, bool) or isinstance(b, bool):
        if is_boolv(a) and is_boolv(b):
            return cmp_('==', a, b)
        return False
    if isinstance(a, (Ref,)) and isinstance(b, Ref):
        return a.id == b.id
    if a is b:
        return True
    if isinstance(a, (ClassV, Builtin)) or isinstance(b, (ClassV, Builtin)):
        return isinstance(a, Builtin) and isinstance(b, Builtin) and a.name == b.name
    raise Unsupported("identity comparison")


def equal(it, a, b):
    ka, kb = it.kind(a), it.kind(b)
    if isinstance(a, Builtin) and isinstance(b, Builtin):
        return a.name == b.name
    if isinstance(a, (ClassV, Builtin)) or isinstance(b, (ClassV, Builtin)):
        return a is b
    if is_numlike(a) and is_numlike(b):
        return cmp_('==', a, b)
    if a is None or b is None:
        return a is None and b is None
    if ka == 'str' or kb == 'str':
        return veq(a, b) if ka == kb else False
    if ka == 'tuple' and kb == 'tuple':
        if len(a) != len(b):
            return False
        return b_and(*[equal(it, x, y) for x, y in zip(a, b)])
    if ka == 'set' and kb == 'set':
        return set_eq(it, it.content(a), it.content(b))
    if ka == 'list' and kb == 'list':
        return seq_eq(it, it.content(a), it.content(b))
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return True
    if is_numlike(a) or is_numlike(b):
        if it.is_container(a) or it.is_container(b):
            return False
    if ka != kb and {ka, kb} <= {'list', 'tuple', 'dict', 'set', 'range'}:
        return False
    return veq(a, b)


def set_eq(it, a, b):
    if a is b:
        return True
    x = it.ctx.bound('e')
    body = T(a.mem(x)) == T(b.mem(x))
    if T(a.mem(x)).eq(T(b.mem(x))):
        return True
    return z3.ForAll([x], body)


def seq_eq(it, a, b):
    if a is b:
        return True
    if isinstance(a, Lit) and isinstance(b, Lit):
        if a.n != b.n:
            return False
        return b_and(*[equal(it, x, y) for x, y in zip(a.items, b.items)])
    le = cmp_('==', a.n, b.n)
    if le is False:
        return False
    if isinstance(a, Lit) and a.n == 0:
        return cmp_('==', b.n, 0)
    if isinstance(b, Lit) and b.n == 0:
        return cmp_('==', a.n, 0)
    return b_and(le, it.ctx.forall(a.n, lambda k: equal(it, a.at(k), b.at(k))))


def contains(it, cont, x):
    if isinstance(cont, (str, StrV)):
        if isinstance(cont, str) and isinstance(x, str):
            return x in cont
        raise Unsupported("substring test")
    m = getattr(cont, 'contains', None)
    if m is not None:
        return m(it, x)
    c = it.content(cont)
    if isinstance(c, Dct):
        return c.has(dkey(it, x))
    if isinstance(c, SetC):
        return c.mem(x)
    if isinstance(c, Nd):
        if c.ndim != 1:
            raise Unsupported("membership in a matrix")
        return member(it.ctx, seq_of(c), x)
    if it.is_container(x):
        return it.ctx.exists(c.n, lambda k: equal(it, c.at(k), x)) if not isinstance(c, Lit) else \
            b_or(*[equal(it, y, x) for y in c.items])
    return member(it.ctx, c, x)


# ------------------------------------------------------------------ strings
def to_str(it, v):
    if isinstance(v, (str, StrV)):
        return v
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, int):
        return str(v)
    if v is None:
        return 'None'
    if isinstance(v, IteV):
        return ite(v.c, to_str(it, v.a), to_str(it, v.b))
    return StrV([('fmt', 'str', v if is_numlike(v) else 0)])


def fmt(it, spec, v):
    if isinstance(v, IteV):
        return it.lift2(v, lambda x: fmt(it, spec, x))
    if isinstance(spec, str) and spec == '':
        return to_str(it, v)
    if isinstance(v, int) and not isinstance(v, bool) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError:
            pass
    if isinstance(spec, str) and spec and spec[-1] in 'fdeg' and not is_numlike(v):
        if v is None or isinstance(v, str):
            it.raise_exc('TypeError', 'format of non-number')
    return StrV([('fmt', spec, v)])


def str_format(it, s, args):
    """'...{:spec}...'.format(args)"""
    parts = []
    if isinstance(s, StrV):
        # format spec itself symbolic: only the repository's "{:." + str(k) + "f}" idiom
        return StrV([('fmt', s.parts, args[0])])
    i, n = 0, 0
    while i < len(s):
        j = s.find('{', i)
        if j < 0:
            parts.append(s[i:])
            break
        parts.append(s[i:j])
        e = s.find('}', j)
        if e < 0:
            raise Unsupported("format string")
        spec = s[j + 1:e]
        name, _, sp = spec.partition(':')
        k = int(name) if name.isdigit() else n
        if name not in ('',) and not name.isdigit():
            raise Unsupported("named format field")
        n += 1
        if k >= len(args):
            it.raise_exc('IndexError', 'format')
        parts.extend(str_parts(fmt(it, sp, args[k])))
        i = e + 1
    return mkstr(parts)


def percent_format(it, s, args):
    if not isinstance(args, tuple):
        args = (args,)
    return StrV([('pct', s) + tuple(a for a in args if is_numlike(a))]) if args else s


# ------------------------------------------------------------------ attributes of built-in values
def attr(it, obj, name):
    if is_sym(obj) and getattr(it, 'grb', None) is not None:
        from . import grb
        r = grb.term_attr(it, obj, name)
        if r is not None:
            return r
    k = it.kind(obj)
    if k == 'nd':
        c = it.content(obj)
        if name == 'shape':
            return tuple(c.shape)
        if name == 'size':
            n = 1
            for d in c.shape:
                n = arith('*', n, d)
            return n
        if name == 'ndim':
            return c.ndim
        if name == 'T':
            if c.ndim == 2:
                return Frozen(Nd((c.shape[1], c.shape[0]), lambda i, j: c.f(j, i), c.dtype), None, 'nd')
            return obj
        return MethodV(obj, name)
    if name == '__class__':
        return builtin(it, {'int': 'int', 'float': 'float', 'bool': 'bool', 'str': 'str', 'list': 'list',
                            'tuple': 'tuple', 'dict': 'dict', 'set': 'set', 'range': 'range'}[k])
    if k in ('list', 'dict', 'set', 'str', 'tuple', 'range', 'gen'):
        return MethodV(obj, name)
    if k in ('int', 'float', 'bool') and name in ('sum', 'item', 'min', 'max', 'all', 'any', 'astype', 'size',
                                                  'shape', 'copy', 'round', 'tolist', 'is_integer'):
        if name == 'size':
            return 1
        if name == 'shape':
            return ()
        return MethodV(obj, name)
    if obj is None:
        it.raise_exc('AttributeError', name)
    if isinstance(obj, ExcV):
        if name == 'args':
            return tuple(obj.args)
    raise Unsupported("attribute %s of %s" % (name, k))


def call_method(it, obj, name, args, kw):
    ctx = it.ctx
    if isinstance(obj, tuple) and len(obj) == 2 and obj[0] == '__dict__':
        if name == 'update':
            src = args[0]
            if isinstance(src, tuple) and src[0] == '__dict__':
                c = it.st.heap[obj[1].id]
                f = dict(c.fields)
                f.update(it.st.heap[src[1].id].fields)
                it.st.heap[obj[1].id] = ObjC(c.cls, f)
                return None
        raise Unsupported("__dict__." + name)
    k = it.kind(obj)
    if isinstance(obj, IteV):
        return it.lift2(obj, lambda o: call_method(it, o, name, args, kw))
    if k in ('list', 'tuple', 'gen', 'range'):
        return list_method(it, obj, name, args, kw)
    if k == 'nd':
        return nd_method(it, obj, name, args, kw)
    if k == 'dict':
        return dict_method(it, obj, name, args, kw)
    if k == 'set':
        c = it.content(obj)
        if name == 'add':
            x = args[0]
            it.set_content(obj, SetC(lambda y: b_or(c.mem(y), veq(y, x)),
                                     mkconcat(c.seq, Lit([x])) if c.seq is not None else None))
            return None
        if name in ('issubset', '__contains__'):
            if name == '__contains__':
                return c.mem(args[0])
        raise Unsupported("set." + name)
    if k == 'str':
        if name == 'format':
            return str_format(it, obj, args)
        if name == 'join' and isinstance(obj, str):
            s = it.iter_seq(args[0])
            if isinstance(s, Lit):
                parts = []
                for j, x in enumerate(s.items):
                    if j:
                        parts.append(obj)
                    parts.extend(str_parts(x))
                return mkstr(parts)
        if isinstance(obj, str) and all(isinstance(a, (str, int)) for a in args):
            r = getattr(obj, name)(*args)
            if isinstance(r, list):
                return it.new_list(Lit(r))
            return r
        raise Unsupported("str." + name)
    if is_numlike(obj):
        if name in ('sum', 'item', 'min', 'max', 'copy', 'tolist'):
            return obj
        if name in ('all', 'any'):
            return it.truth(obj)
        if name == 'round':
            return np_round_scalar(it, obj, conc(args[0]) if args else 0)
        if name == 'astype':
            return cast(it, args[0], obj)
        if name == 'is_integer':
            return True if not is_realv(obj) else z3.IsInt(R(obj))
    raise Unsupported("method %s of %s" % (name, k))


def list_method(it, obj, name, args, kw):
    ctx = it.ctx
    c = it.content(obj)
    if name == 'append':
        if isinstance(c, Lit):
            r = Lit(c.items + [args[0]])
        elif isinstance(c, Concat) and isinstance(c.b, Lit):
            r = Concat(c.a, Lit(c.b.items + [args[0]]))
        else:
            r = Concat(c, Lit([args[0]]))
        r.shared = getattr(c, 'shared', False)
        it.set_content(obj, r)
        return None
    if name == 'extend':
        list_extend(it, obj, args[0])
        return None
    if name == 'insert':
        k = args[0]
        if conc(k) == 0:
            it.set_content(obj, mkconcat(Lit([args[1]]), c))
            return None
        if isinstance(c, Lit) and conc(k) is not None:
            x = list(c.items)
            x.insert(conc(k), args[1])
            it.set_content(obj, Lit(x))
            return None
        raise Unsupported("insert")
    if name == 'pop':
        if not args:
            ctx.oblige("pop from a non-empty list", cmp_('<', 0, c.n))
            i = arith('-', c.n, 1)
        else:
            i = norm_index(it, args[0], c.n, "pop index")
        v = elem(it, obj, c, i)
        v = Frozen(v.content, None, v.kind) if isinstance(v, Frozen) else v
        if isinstance(c, Concat) and isinstance(c.b, Lit) and c.b.n >= 1 and not args:
            it.set_content(obj, mkconcat(c.a, Lit(c.b.items[:-1])))
        elif isinstance(c, Lit) and conc(i) is not None:
            it.set_content(obj, Lit(c.items[:conc(i)] + c.items[conc(i) + 1:]))
        else:
            it.set_content(obj, Del(c, i))
        return v
    if name == 'sort':
        it.set_content(obj, sort_seq(it, c, kw.get('key'), kw.get('reverse', False)))
        return None
    if name == 'reverse':
        it.set_content(obj, slice_seq(it, c, slice(None, None, -1)))
        return None
    if name == 'copy':
        return it.new_list(c)
    if name == 'clear':
        it.set_content(obj, Lit([]))
        return None
    if name == 'index':
        ctx.oblige("list.index: element present", contains(it, obj, args[0]))
        r = ctx.fresh('lidx', I)
        ctx.assume(b_and(cmp_('<=', 0, r), cmp_('<', r, c.n), equal(it, c.at(r), args[0])))
        k = ctx.bound('k')
        ctx.assume(z3.ForAll([k], T(b_implies(b_and(cmp_('<=', 0, k), cmp_('<', k, r)),
                                             b_not(equal(it, c.at(k), args[0]))))))
        return r
    if name == 'count':
        return wsum(ctx, c, lambda x: ite(equal(it, x, args[0]), 1, 0))
    if name == 'remove':
        i = list_method(it, obj, 'index', args, {})
        it.set_content(obj, Del(c, i))
        return None
    raise Unsupported("list." + name)


def dict_method(it, obj, name, args, kw):
    c = it.content(obj)
    if args and name in ('get', 'pop', 'setdefault'):
        args = [dkey(it, args[0])] + list(args[1:])
    if name == 'get':
        dflt = args[1] if len(args) > 1 else None
        h = c.has(args[0])
        if h is True:
            return own(it, c.get(args[0]), obj, args[0], c)
        if h is False:
            return dflt
        try:
            v = c.get(args[0])
        except Unsupported:
            return dflt
        if not is_numlike(dflt) and it.ctx.prove_full(h, ms=1500):
            return own(it, v, obj, args[0], c)
        return ite(h, v, dflt)
    if name == 'keys':
        return Frozen(keys_of(it, c))
    if name == 'values':
        ks = keys_of(it, c)
        return Frozen(map_seq(ks, lambda k: c.get(k)))
    if name == 'items':
        ks = keys_of(it, c)
        return Frozen(map_seq(ks, lambda k: (k, c.get(k))))
    if name == 'pop':
        if len(args) == 2:
            h = c.has(args[0])
            if h is False:
                return args[1]
            raise Unsupported("dict.pop with default")
        return dict_pop(it, obj, c, args[0])
    if name == 'update':
        s = it.content(args[0])
        if isinstance(s, DLit):
            for k, v in s.items.items():
                dict_set(it, obj, it.content(obj), k, v)
            return None
    if name == 'copy':
        return it.new_dict(c)
    if name == 'clear':
        it.set_content(obj, DLit({}))
        return None
    if name == 'setdefault':
        h = c.has(args[0])
        if h is True:
            return own(it, c.get(args[0]), obj, args[0], c)
        if h is False:
            dict_set(it, obj, c, args[0], args[1] if len(args) > 1 else None)
            return args[1] if len(args) > 1 else None
    raise Unsupported("dict." + name)


def keys_of(it, c):
    if c.keys is not None:
        return c.keys
    if isinstance(c, DStore):
        base = keys_of(it, c.base)
        h = c.base.has(c.key)
        if h is True or (h is not False and it.ctx.prove_full(h, ms=1000)):
            return base
        if h is False or it.ctx.prove_full(b_not(h), ms=1000):
            return mkconcat(base, Lit([c.key]))
        return IteSeq(h, base, mkconcat(base, Lit([c.key])))
    if isinstance(c, DIte):
        return IteSeq(c.c, keys_of(it, c.a), keys_of(it, c.b))
    if isinstance(c, DPop):
        ks = keys_of(it, c.base)
        k = it.ctx.bound('k')
        return mk_filter(it.ctx, ks.n, k, b_not(veq(ks.at(k), c.key)), ks.at(k))
    raise Unsupported("iteration over a symbolic dictionary")


def map_seq(s, f):
    if isinstance(s, Lit):
        return Lit([f(x) for x in s.items])
    if isinstance(s, Concat):
        return Concat(map_seq(s.a, f), map_seq(s.b, f))
    if isinstance(s, IteSeq):
        return IteSeq(s.c, map_seq(s.a, f), map_seq(s.b, f))
    if isinstance(s, Filter):
        r = Filter.__new__(Filter)
        r.src_n, r.n, r.cond, r.pos = s.src_n, s.n, s.cond, s.pos
        r.val = lambda j: f(s.val(j))
        return r
    if isinstance(s, Perm):
        return Perm(map_seq(s.base, f), s.sig, s.inv)
    return Fn(s.n, lambda k: f(s.at(k)))


# ------------------------------------------------------------------ ordering
def fresh_perm(it, n, name='perm'):
    """sig, inv: mutually inverse permutations of 0..n-1"""
    ctx = it.ctx
    sig, inv = ctx.fresh_fn(name, [I], I), ctx.fresh_fn(name + '_inv', [I], I)
    k = ctx.bound('k')
    rng = b_and(cmp_('<=', 0, k), cmp_('<', k, n))
    s, v = sig(k), inv(k)
    ctx.assume(z3.ForAll([k], T(b_implies(rng, b_and(cmp_('<=', 0, s), cmp_('<', s, n), inv(s) == k))),
                         patterns=[s]))
    ctx.assume(z3.ForAll([k], T(b_implies(rng, b_and(cmp_('<=', 0, v), cmp_('<', v, n), sig(v) == k))),
                         patterns=[v]))
    for t in (s, v):
        PERM_DECLS[t.decl().name()] = IT(n)
    it.perms.append((n, lambda q: sig(IT(q)), lambda q: inv(IT(q))))
    return (lambda q: sig(IT(q))), (lambda q: inv(IT(q)))


def le_vals(a, b):
    if isinstance(a, tuple):
        return lex('<=', a, b)
    return cmp_('<=', a, b)


def lt_vals(a, b):
    if isinstance(a, tuple):
        return lex('<', a, b)
    return cmp_('<', a, b)


def order_perm(it, n, keyf, reverse=False, stable=True, name='order'):
    """permutation that sorts keyf (ascending, or descending if reverse), stable"""
    ctx = it.ctx
    sig, inv = fresh_perm(it, n, name)
    i, j = ctx.bound('i'), ctx.bound('j')
    rng = b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, n))
    a, b = keyf(sig(i)), keyf(sig(j))
    if reverse:
        a, b = b, a
    body = le_vals(a, b)
    if stable:
        eqk = b_and(le_vals(a, b), le_vals(b, a))
        body = b_and(body, b_implies(eqk, cmp_('<', sig(i), sig(j))))
    ctx.assume(z3.ForAll([i, j], T(b_implies(rng, body)), patterns=[z3.MultiPattern(sig(i), sig(j))]))
    return sig, inv


def sort_seq(it, s, key=None, reverse=False):
    reverse = it.decide(it.truth(reverse))
    if not isinstance(reverse, bool):
        raise Unsupported("symbolic sort direction")
    if isinstance(s, Lit) and s.n <= 1:
        return s
    if isinstance(s, SetC):
        raise Unsupported("sort of a set")
    if isinstance(s, Lit) and all(isinstance(x, (int, Fraction)) for x in s.items) and key is None:
        return Lit(sorted(s.items, reverse=reverse))
    keyf = key_fn(it, s, key)
    sig, inv = order_perm(it, s.n, keyf, reverse)
    return Perm(s, sig, inv)


def key_fn(it, s, key):
    if key is None:
        return lambda k: s.at(k)
    # evaluate the key once at a generic index
    ctx = it.ctx
    q = ctx.bound('q')
    ctx.push(q, b_and(cmp_('<=', 0, q), cmp_('<', q, s.n)))
    heap0 = dict(it.st.heap)
    v = it.call(key, [s.at(q)])
    ctx.pop()
    for i, c in heap0.items():
        if it.st.heap.get(i) is not c:
            raise Unsupported("sort key with side effects")
    return lambda k: vsubst(v, [(q, IT(k))])


def extremum(it, kind, s, key=None, what=''):
    """max/min of a sequence; returns the element"""
    ctx = it.ctx
    if isinstance(s, Lit):
        if s.n == 0:
            it.raise_exc('ValueError', kind + ' of an empty sequence')
        if key is None:
            acc = s.items[0]
            for x in s.items[1:]:
                acc = minmax2(kind, acc, x)
            return acc
    if isinstance(s, IteSeq) and key is None:
        return it.branch(s.c, lambda: extremum(it, kind, s.a), lambda: extremum(it, kind, s.b))
    if isinstance(s, Concat) and key is None and isinstance(s.b, Lit) and s.b.n > 0:
        last = extremum(it, kind, s.b)
        if not is_numlike(last):
            raise Unsupported("max of non-numbers")
        r = minmax2(kind, minmax_seq(it, kind, s.a), last)
        return ite(cmp_('<', 0, s.a.n), r, last)
    ctx.oblige("%s of a non-empty sequence" % kind, cmp_('<', 0, s.n))
    if key is None:
        return minmax_seq(it, kind, s)
    keyf = key_fn(it, s, key)
    r = ctx.fresh('arg' + kind, I)
    k = ctx.bound('k')
    op = '<=' if kind == 'min' else '>='
    sop = '<' if kind == 'min' else '>'
    rng = b_and(cmp_('<=', 0, k), cmp_('<', k, s.n))
    ctx.assume(b_and(cmp_('<=', 0, r), cmp_('<', r, s.n)))
    ctx.assume(z3.ForAll([k], T(b_implies(rng, b_and(cmp_(op, keyf(r), keyf(k)),
                                                     b_implies(cmp_('<', k, r), cmp_(sop, keyf(r), keyf(k))))))))
    return s.at(r)


def minmax_seq(it, kind, s):
    """value of the extremum (meaningful when non-empty)"""
    ctx = it.ctx
    if isinstance(s, Perm):
        return minmax_seq(it, kind, s.base)
    probe = s.at(z3.IntVal(0)) if not isinstance(s, Lit) else s.items[0]
    if isinstance(probe, (tuple, Frozen, str)) or not is_numlike(probe):
        raise Unsupported("extremum of non-numbers")
    return ctx.minmax(kind, s.n, lambda k: s.at(k))


def minmax2(kind, a, b):
    c = cmp_('<=' if kind == 'min' else '>=', a, b)
    return ite(c, a, b)


# ------------------------------------------------------------------ numpy
def sqrt(it, x):
    x = toreal(x)
    if isinstance(x, Fraction):
        import math
        n, d = math.isqrt(max(x.numerator, 0)), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return Fraction(n, d)
        x = R(x)
    ctx = it.ctx
    r = SQRT(x)
    ctx.assume(b_and(r >= 0, z3.Implies(x >= 0, (r == 0) == (x == 0)), z3.Implies(x >= 0, r * r == x)))
    return r


def dot(it, a, b):
    ctx = it.ctx
    na, nb = as_nd(it, a), as_nd(it, b)
    if na is None or nb is None:
        return it.binop('Mult', a, b)
    if na.ndim == 1 and nb.ndim == 1:
        ctx.oblige("dot: lengths match", cmp_('==', na.shape[0], nb.shape[0]))
        return ctx.sum(na.shape[0], lambda j: arith('*', na.f(j), nb.f(j)))
    if na.ndim == 2 and nb.ndim == 1:
        ctx.oblige("matmul: shapes match", cmp_('==', na.shape[1], nb.shape[0]))
        k = ctx.bound('r')
        v = ctx.sum(na.shape[1], lambda j: arith('*', na.f(k, j), nb.f(j)))
        return it.new_nd(Nd((na.shape[0],), lambda i: vsubst(v, [(k, IT(i))]), 'f'))
    if na.ndim == 1 and nb.ndim == 2:
        ctx.oblige("matmul: shapes match", cmp_('==', na.shape[0], nb.shape[0]))
        k = ctx.bound('r')
        v = ctx.sum(na.shape[0], lambda j: arith('*', na.f(j), nb.f(j, k)))
        return it.new_nd(Nd((nb.shape[1],), lambda i: vsubst(v, [(k, IT(i))]), 'f'))
    raise Unsupported("matrix product of rank %d and %d" % (na.ndim, nb.ndim))


def nd_all(it, c):
    """flat conjunction over all entries"""
    def rec(idx):
        if len(idx) == c.ndim:
            return it.truth(c.f(*idx))
        n = c.shape[len(idx)]
        if isinstance(n, int):
            return b_and(*[rec(idx + [k]) for k in range(n)])
        return it.ctx.forall(n, lambda k: rec(idx + [k]))
    return rec([])


def nd_any(it, c):
    def rec(idx):
        if len(idx) == c.ndim:
            return it.truth(c.f(*idx))
        n = c.shape[len(idx)]
        if isinstance(n, int):
            return b_or(*[rec(idx + [k]) for k in range(n)])
        return it.ctx.exists(n, lambda k: rec(idx + [k]))
    return rec([])


def signed_sum(ctx, n, f):
    """the sum; when every term is provably positive (nonnegative) so is the sum (induction on n)"""
    return signed(ctx, ctx.sum(n, f), n, f)


def signed(ctx, v, n, f):
    if not is_sym(v) or v.sort() != RS or not ctx.record:
        return v
    k = ctx.bound('sg')
    rng = b_and(cmp_('<=', 0, k), cmp_('<', k, n))
    ctx.push(k, rng)
    try:
        b = f(k)
        pos = nn = False
        if not isinstance(b, XR) and b is not None and is_sym(b) and b.sort() == RS:
            pos = ctx.prove_full(cmp_('>', b, 0), ms=1500)
            nn = pos or ctx.prove_full(cmp_('>=', b, 0), ms=700)
    finally:
        ctx.pop()
    if pos:
        ctx.assume(b_implies(cmp_('>', n, 0), cmp_('>', v, 0)))
    if nn:
        ctx.assume(cmp_('>=', v, 0))
    return v


def nd_sum(it, c, axis=None):
    ctx = it.ctx
    if axis is None:
        if c.ndim == 1:
            s = c.seq
            if s is not None:
                return signed(ctx, wsum(ctx, s, lambda x: num(x)), c.shape[0], lambda k: num(s.at(k)))
            return signed_sum(ctx, c.shape[0], lambda k: num(c.f(k)))

        def rec(idx):
            if len(idx) == c.ndim:
                return num(c.f(*idx))
            return ctx.sum(c.shape[len(idx)], lambda k: rec(idx + [k]))
        return rec([])
    ax = conc(axis)
    if ax < 0:
        ax += c.ndim
    if c.ndim == 1:
        return nd_sum(it, c)
    ks = [ctx.bound('r') for _ in range(c.ndim - 1)]

    def entry(j):
        q = list(ks)
        q.insert(ax, j)
        return num(c.f(*q))
    for k in ks:
        ctx.push(k, True)
    v = ctx.sum(c.shape[ax], entry)
    for k in ks:
        ctx.pop()
    shape = [d for a, d in enumerate(c.shape) if a != ax]
    return it.new_nd(Nd(shape, lambda *q: vsubst(v, list(zip(ks, [IT(x) for x in q]))), c.dtype if c.dtype != 'b' else 'i'))


def nd_extremum(it, kind, c, axis=None):
    ctx = it.ctx
    if axis is not None:
        ax = conc(axis)
        if ax < 0:
            ax += c.ndim
        if c.ndim == 1:
            return nd_extremum(it, kind, c)
        if c.ndim != 2:
            raise Unsupported("extremum over an axis of rank 3")
        k = ctx.bound('r')
        ctx.push(k, True)
        v = ctx.minmax(kind, c.shape[ax], (lambda j: c.f(k, j)) if ax == 1 else (lambda j: c.f(j, k)))
        ctx.pop()
        ctx.oblige("%s of a non-empty axis" % kind, cmp_('<', 0, c.shape[ax]))
        return it.new_nd(Nd((c.shape[1 - ax],), lambda q: vsubst(v, [(k, IT(q))]), c.dtype))
    if c.ndim == 1:
        s = c.seq
        if s is not None:
            return extremum(it, kind, s)
        ctx.oblige("%s of a non-empty array" % kind, cmp_('<', 0, c.shape[0]))
        if isinstance(c.shape[0], int):
            return extremum(it, kind, Lit([c.f(k) for k in range(c.shape[0])]))
        return ctx.minmax(kind, c.shape[0], lambda k: num(c.f(k)))
    raise Unsupported("extremum of a matrix")


def arg_extremum(it, kind, c):
    ctx = it.ctx
    s = seq_of(c)
    ctx.oblige("arg%s of a non-empty array" % kind, cmp_('<', 0, s.n))
    r = ctx.fresh('arg' + kind, I)
    k = ctx.bound('k')
    op, sop = ('<=', '<') if kind == 'min' else ('>=', '>')
    ctx.assume(b_and(cmp_('<=', 0, r), cmp_('<', r, s.n)))
    ctx.assume(z3.ForAll([k], T(b_implies(b_and(cmp_('<=', 0, k), cmp_('<', k, s.n)),
                                         b_and(cmp_(op, s.at(r), s.at(k)),
                                               b_implies(cmp_('<', k, r), cmp_(sop, s.at(r), s.at(k))))))))
    return r


def argsort(it, v):
    c = as_nd(it, v)
    if c is None or c.ndim != 1:
        raise Unsupported("argsort")
    n = c.shape[0]
    sig, inv = order_perm(it, n, lambda k: c.f(k), stable=False, name='argsort')
    s = Perm(Rng(n), sig, inv)
    return it.new_nd(Nd((n,), lambda k: s.at(k), 'i', seq=s))


ROUND = {}


def np_round_scalar(it, v, d):
    """round to d decimals: |r - v| <= 0.5*10^-d and r*10^d is an integer (a deterministic function of v)"""
    v = num(v)
    if isinstance(v, int) and d >= 0:
        return v
    ctx = it.ctx
    f = z3.Function('round%d' % d, RS, RS)
    x = R(v)
    r = f(x)
    h = z3.RealVal(str(Fraction(1, 2 * 10 ** d)))
    ctx.assume(b_and(r - x <= h, x - r <= h, z3.IsInt(r * 10 ** d)))
    return r


def shape_arg(it, v):
    if isinstance(v, tuple):
        return tuple(v)
    if it.is_container(v):
        c = it.content(v)
        if isinstance(c, Lit):
            return tuple(c.items)
        raise Unsupported("shape")
    return (v,)


def cast(it, ty, v):
    name = ty if isinstance(ty, str) else getattr(ty, 'name', None)
    if name in ('float', 'float64', 'np.float64'):
        return to_float(it, v)
    if name in ('int', 'int64', 'np.int64', 'i8'):
        return to_int(it, v)
    if name in ('bool', 'bool_'):
        return it.truth(v)
    raise Unsupported("cast to %r" % (name,))


def dtype_of(ty):
    name = ty if isinstance(ty, str) else getattr(ty, 'name', None)
    return {'float': 'f', 'float64': 'f', 'np.float64': 'f', 'int': 'i', 'int64': 'i', 'np.int64': 'i',
            'bool': 'b', 'np.bool_': 'b'}[name] if name in ('float', 'float64', 'np.float64', 'int', 'int64',
                                                            'np.int64', 'bool', 'np.bool_') else None


def to_float(it, v):
    if isinstance(v, str):
        if v in ('inf', '+inf', 'Inf', 'infinity'):
            return PINF
        if v in ('-inf', '-Inf', '-infinity'):
            return NINF
        try:
            return Fraction(v)
        except ValueError:
            it.raise_exc('ValueError', 'float')
    if isinstance(v, StrV):
        h = getattr(it, 'parse_float', None)
        if h is not None:
            return h(it, v)
        raise Unsupported("float of a symbolic string")
    if isinstance(v, IteV):
        return it.lift2(v, lambda x: to_float(it, x))
    m = getattr(v, 'to_float', None)
    if m is not None:
        return m(it)
    return toreal(v)


def to_int(it, v):
    if isinstance(v, str):
        return int(v)
    if isinstance(v, IteV):
        return it.lift2(v, lambda x: to_int(it, x))
    if it.kind(v) == 'nd':
        c = it.content(v)
        if c.ndim == 0:
            v = c.f()
    return trunc(v)


def floor(it, v):
    v = num(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Fraction):
        import math
        return math.floor(v)
    if isinstance(v, XR):
        raise Unsupported("floor of infinity")
    if v.sort() == I:
        return v
    f = z3.ToInt(v)
    hook = getattr(it.ctx, 'floor_hook', None)
    if hook is not None:
        hook(f)
    return f


def np_unique(it, v):
    c = as_nd(it, v) if not isinstance(it.content(v), Seq) else None
    s = it.iter_seq(v) if c is None else seq_of(c)
    n = distinct_count(it, s)
    f = it.ctx.fresh_fn('uniq', [I], I)
    k, j = it.ctx.bound('k'), it.ctx.bound('j')
    return it.new_nd(Nd((n,), lambda q: f(IT(q)), 'i'))


def np_array(it, v, kw):
    if not it.is_container(v):
        if is_numlike(v):
            return it.new_nd(Nd((), lambda: v, dt(v)))
        raise Unsupported("np.array of %s" % it.kind(v))
    c = it.content(v)
    if isinstance(c, Nd):
        r = Nd(c.shape, c.f, c.dtype, seq=c.seq)
    else:
        if isinstance(c, Dct) or isinstance(c, SetC):
            raise Unsupported("array of a dict or set")
        try:
            s = deep_freeze_seq(it, c)
            rectangular(it, s)
            r = nd_of_seq(s)
        except Unsupported:
            m = getattr(it, 'object_array', None)
            if m is None:
                raise
            return m(it, v)
    d = kw.get('dtype')
    if d is not None:
        dd = dtype_of(d)
        if dd is None:
            raise Unsupported("dtype")
        r0 = r
        r = Nd(r0.shape, lambda *q: coerce(dd, r0.f(*q)), dd)
    return it.new_nd(r)


def rectangular(it, s):
    """obligation: nested sequences of equal length (numpy builds no ragged arrays)"""
    if isinstance(s, Lit) and s.n == 0:
        return
    inner = lambda k: seq_of(s.at(k).content)
    first = s.at(0 if isinstance(s, Lit) else z3.IntVal(0))
    if not isinstance(first, Frozen) or isinstance(first.content, Nd):
        return
    w = seq_of(first.content).n
    it.ctx.oblige("rows of an array have equal length", it.ctx.forall(s.n, lambda k: cmp_('==', inner(k).n, w)))
    f2 = seq_of(first.content)
    if isinstance(f2, Lit) and f2.n == 0:
        return
    e = f2.at(0 if isinstance(f2, Lit) else z3.IntVal(0))
    if isinstance(e, Frozen) and isinstance(e.content, Seq):
        w2 = e.content.n
        it.ctx.oblige("rows of an array have equal length", it.ctx.forall(s.n, lambda k: it.ctx.forall(
            inner(k).n, lambda q: cmp_('==', seq_of(inner(k).at(q).content).n, w2))))


def deep_freeze_seq(it, c):
    return it.freeze_content(c)


def nd_method(it, obj, name, args, kw):
    ctx = it.ctx
    c = it.content(obj)
    if name == 'dot':
        return dot(it, obj, args[0])
    if name == 'sum':
        return nd_sum(it, c, kw.get('axis', args[0] if args else None))
    if name in ('min', 'max'):
        return nd_extremum(it, name, c, kw.get('axis', args[0] if args else None))
    if name == 'mean':
        return it.binop('Div', nd_sum(it, c), c.shape[0])
    if name == 'all':
        return nd_all(it, c)
    if name == 'any':
        return nd_any(it, c)
    if name in ('argmax', 'argmin'):
        return arg_extremum(it, name[3:], c)
    if name == 'argsort':
        return argsort(it, obj)
    if name == 'tolist':
        if c.ndim == 1:
            return it.new_list(seq_of(c))
        if c.ndim == 0:
            return c.f()
        return it.new_list(seq_of(c))
    if name == 'copy':
        return it.new_nd(c if c.seq is None else Nd(c.shape, c.f, c.dtype, seq=c.seq))
    if name == 'astype':
        d = dtype_of(args[0])
        if d is None:
            raise Unsupported("astype")
        return it.new_nd(Nd(c.shape, lambda *q: coerce(d, c.f(*q)), d, seq=c.seq if d == c.dtype else None))
    if name == 'reshape':
        sh = args[0] if len(args) == 1 else tuple(args)
        return reshape(it, c, shape_arg(it, sh))
    if name in ('flatten', 'ravel'):
        n = 1
        for d in c.shape:
            n = arith('*', n, d)
        r = reshape(it, c, (n,))
        return r
    if name == 'sort':
        if c.ndim != 1:
            raise Unsupported("sort of a matrix")
        base = seq_of(c)
        sig, inv = order_perm(it, c.shape[0], lambda k: base.at(k), stable=False, name='sort')
        s = Perm(base, sig, inv)
        it.set_content(obj, Nd(c.shape, lambda k: s.at(k), c.dtype, seq=s))
        return None
    if name == 'round':
        return np_fn(it, 'round', [obj] + list(args), kw)
    if name == 'item':
        return c.f(*[0] * c.ndim)
    if name == 'nonzero':
        return (np_where(it, obj),)
    if name == 'fill':
        v = coerce(c.dtype, args[0])
        it.set_content(obj, Nd(c.shape, lambda *q: v, c.dtype))
        return None
    raise Unsupported("ndarray." + name)


def reshape(it, c, shape):
    """(a, b, n) -> (N, n) with N = a*b and (a, b) -> (N,): row-major"""
    ctx = it.ctx
    size = 1
    for d in c.shape:
        size = arith('*', size, d)
    shape = list(shape)
    if any(conc(d) == -1 for d in shape):
        i = [conc(d) for d in shape].index(-1)
        rest = [d for j, d in enumerate(shape) if j != i]
        if c.ndim == len(shape) + 1 and len(rest) <= 1:
            shape[i] = arith('*', c.shape[0], c.shape[1]) if i == 0 else None
        elif len(shape) == 1:
            shape[0] = size
        if shape[i] is None or conc(shape[i]) == -1:
            raise Unsupported("reshape with -1")
    new = 1
    for d in shape:
        new = arith('*', new, d)
    ctx.oblige("reshape keeps the number of entries", cmp_('==', new, size))
    if len(shape) == c.ndim and all(_eqdim(x, y) for x, y in zip(shape, c.shape)):
        return it.new_nd(c)
    if c.ndim == len(shape) + 1:
        b = c.shape[1]
        tail = list(c.shape[2:])
        # the trailing dimensions must agree for the row-major map below
        ok = b_and(*[cmp_('==', x, y) for x, y in zip(shape[1:], tail)])
        ctx.oblige("reshape keeps the trailing dimensions", ok)
        ctx.oblige("rows per block are positive", cmp_('<', 0, b))

        def f(r, *q):
            return c.f(arith('//', r, b), arith('%', r, b), *q)
        return it.new_nd(Nd(shape, f, c.dtype))
    raise Unsupported("reshape")


def _eqdim(a, b):
    if is_sym(a) and is_sym(b):
        return a.eq(b)
    return not is_sym(a) and not is_sym(b) and a == b


def np_where(it, v):
    c = it.content(v)
    if c.ndim != 1 or c.dtype != 'b':
        raise Unsupported("np.where")
    k = it.ctx.bound('w')
    cond = c.f(k)
    if isinstance(cond, bool):
        s = Rng(c.shape[0]) if cond else Lit([])
    else:
        s = mk_filter(it.ctx, c.shape[0], k, cond, k)
    return it.new_nd(Nd((s.n,), lambda q: s.at(q), 'i', seq=s))


def np_fn(it, name, args, kw):
    ctx = it.ctx
    if name in ('array', 'asarray', 'ascontiguousarray'):
        return np_array(it, args[0], kw if len(args) < 2 else {**kw, 'dtype': args[1]})
    if name in ('zeros', 'ones', 'full', 'empty'):
        sh = shape_arg(it, args[0])
        if name == 'full':
            v = args[1]
            if it.is_container(v):
                raise Unsupported("np.full of an array")
            d = dtype_of(kw['dtype']) if 'dtype' in kw else dt(v)
            v = coerce(d, v)
        else:
            d = dtype_of(kw['dtype']) if 'dtype' in kw else ('f' if len(args) < 2 else dtype_of(args[1]))
            v = coerce(d, 0 if name != 'ones' else 1)
        return it.new_nd(Nd(sh, lambda *q: v, d))
    if name in ('zeros_like', 'ones_like'):
        c = as_nd(it, args[0])
        v = coerce(c.dtype, 0 if name == 'zeros_like' else 1)
        return it.new_nd(Nd(c.shape, lambda *q: v, c.dtype))
    if name == 'arange':
        a = [x for x in args]
        if len(a) == 1:
            a = [0, a[0]]
        r = Rng(stride_len(it, a[0], a[1], a[2] if len(a) > 2 else 1), a[0], a[2] if len(a) > 2 else 1)
        return it.new_nd(Nd((r.n,), lambda k: r.at(k), 'i', seq=r))
    if name == 'broadcast_to':
        c = as_nd(it, args[0])
        sh = shape_arg(it, args[1])
        if c.ndim == 1 and len(sh) == 2:
            ctx.oblige("broadcast: row length matches", cmp_('==', c.shape[0], sh[1]))
            return Frozen(Nd(sh, lambda i, j: c.f(j), c.dtype), None, 'nd')
        raise Unsupported("broadcast_to")
    if name == 'tile':
        c = as_nd(it, args[0])
        sh = args[1]
        if isinstance(sh, tuple) and len(sh) == 2 and conc(sh[1]) == 1 and c.ndim == 1:
            return it.new_nd(Nd((sh[0], c.shape[0]), lambda i, j: c.f(j), c.dtype))
        raise Unsupported("tile")
    if name in ('round', 'around', 'round_'):
        d = kw.get('decimals', args[1] if len(args) > 1 else 0)
        d = conc(d)
        if d is None:
            raise Unsupported("symbolic decimals")
        if not it.is_container(args[0]):
            return np_round_scalar(it, args[0], d)
        c = as_nd(it, args[0])
        ks = [ctx.bound('r') for _ in range(c.ndim)]
        for k, n in zip(ks, c.shape):
            ctx.push(k, b_and(cmp_('<=', 0, k), cmp_('<', k, n)))
        v = np_round_scalar(it, c.f(*ks), d)
        for k in ks:
            ctx.pop()
        return it.new_nd(Nd(c.shape, lambda *q: vsubst(v, list(zip(ks, [IT(x) for x in q]))), 'f'))
    if name == 'sum':
        v = args[0]
        ax = kw.get('axis', args[1] if len(args) > 1 else None)
        if is_numlike(v):
            return num(v)
        c = it.content(v)
        if isinstance(c, Seq) and ax is None:
            if isinstance(c, Lit) and c.n == 0:
                return Fraction(0)
            x0 = c.at(z3.IntVal(0)) if not isinstance(c, Lit) else c.items[0]
            if is_numlike(x0):
                return wsum(ctx, c, lambda x: num(x))
        return nd_sum(it, as_nd(it, v), ax)
    if name in ('max', 'min', 'amax', 'amin'):
        kd = name[-3:]
        v = args[0]
        if is_numlike(v):
            return v
        c = it.content(v)
        ax = kw.get('axis', args[1] if len(args) > 1 else None)
        if isinstance(c, Seq) and ax is None:
            return extremum(it, kd, c)
        return nd_extremum(it, kd, as_nd(it, v), ax)
    if name in ('maximum', 'minimum'):
        kd = name[:3]
        if is_numlike(args[0]) and is_numlike(args[1]):
            return minmax2(kd, args[0], args[1])
        return it.new_nd(broadcast(it, lambda x, y: minmax2(kd, x, y), args[0], args[1]))
    if name == 'mean':
        v = args[0]
        c = as_nd(it, v)
        if c is None:
            return v
        ctx.assumptions.add("np.mean of an empty array is not modelled (only printed)")
        n = c.shape[0]
        tot = nd_sum(it, c)
        if isinstance(n, int):
            return arith('/', tot, n) if n else Fraction(0)
        return R(tot) / z3.ToReal(n)
    if name in ('argmax', 'argmin'):
        return arg_extremum(it, name[3:], as_nd(it, args[0]))
    if name == 'argsort':
        return argsort(it, args[0])
    if name == 'sort':
        c = as_nd(it, args[0])
        r = it.new_nd(c)
        if isinstance(it.content(args[0]), Lit) and c.shape[0] == 0:
            return r
        nd_method(it, r, 'sort', [], {})
        return r
    if name == 'where':
        if len(args) == 1:
            return (np_where(it, args[0]),)
        c = as_nd(it, args[0])
        a, b = as_nd(it, args[1]), as_nd(it, args[2])
        fa = (lambda *q: a.f(*q)) if a is not None else (lambda *q: args[1])
        fb = (lambda *q: b.f(*q)) if b is not None else (lambda *q: args[2])
        d = join_dt(a.dtype if a is not None else dt(args[1]), b.dtype if b is not None else dt(args[2]))
        return it.new_nd(Nd(c.shape, lambda *q: coerce(d, ite(c.f(*q), fa(*q), fb(*q))), d))
    if name in ('flatnonzero',):
        return np_where(it, args[0])
    if name in ('any', 'all'):
        c = as_nd(it, args[0])
        if c is None:
            return it.truth(args[0])
        return (nd_any if name == 'any' else nd_all)(it, c)
    if name in ('dot', 'matmul'):
        return dot(it, args[0], args[1])
    if name in ('divide', 'multiply', 'subtract', 'add'):
        op = {'divide': 'Div', 'multiply': 'Mult', 'subtract': 'Sub', 'add': 'Add'}[name]
        if name == 'divide':
            nb = as_nd(it, args[1])
            if nb is not None and nb.ndim == 1:
                ctx.oblige("np.divide: divisors are nonzero",
                           ctx.forall(nb.shape[0], lambda k: cmp_('!=', nb.f(k), 0)))
        return it.binop(op, args[0], args[1])
    if name == 'abs' or name == 'absolute':
        return py_abs(it, args[0])
    if name == 'floor':
        return toreal(floor(it, args[0]))
    if name == 'isclose' or name == 'allclose':
        na, nb = as_nd(it, args[0]), as_nd(it, args[1])

        def close(x, y):
            d = arith('-', x, y)
            ad = ite(cmp_('<', d, 0), neg(d), d)
            ay = ite(cmp_('<', y, 0), neg(y), y)
            return cmp_('<=', ad, arith('+', Fraction(1, 10 ** 8), arith('*', Fraction(1, 10 ** 5), ay)))
        if na is None and nb is None:
            if args[0] is None or args[1] is None:
                it.raise_exc('TypeError', 'allclose')
            return close(args[0], args[1])
        r = broadcast(it, close, args[0], args[1], 'b')
        return it.new_nd(r) if name == 'isclose' else nd_all(it, r)
    if name == 'unique':
        return np_unique(it, args[0])
    if name == 'concatenate':
        s = it.iter_seq(args[0])
        if isinstance(s, Lit):
            acc = Lit([])
            for x in s.items:
                acc = mkconcat(acc, seq_of(it.content(x)))
            return it.new_nd(nd_of_seq(acc))
    if name == 'cumsum':
        c = as_nd(it, args[0])
        k = ctx.bound('k')
        v = ctx.sum(arith('+', k, 1), lambda j: c.f(j))
        return it.new_nd(Nd(c.shape, lambda q: vsubst(v, [(k, IT(q))]), c.dtype))
    if name == 'isinf':
        v = args[0]
        if isinstance(v, XR):
            return b_or(v.p, v.n)
        return False
    if name == 'isfinite':
        v = args[0]
        if isinstance(v, XR):
            return b_not(b_or(v.p, v.n))
        return True
    if name == 'sqrt':
        return sqrt(it, args[0])
    if name == 'copy':
        return nd_method(it, args[0], 'copy', [], {})
    if name == 'isin' or name == 'in1d':
        c = as_nd(it, args[0])
        s = it.iter_seq(args[1])
        return it.new_nd(Nd(c.shape, lambda q: member(ctx, s, c.f(q)), 'b'))
    if name == 'delete':
        raise Unsupported("np.delete")
    raise Unsupported("np." + name)


def py_abs(it, v):
    if it.kind(v) == 'nd':
        c = it.content(v)
        return it.new_nd(Nd(c.shape, lambda *q: py_abs(it, c.f(*q)), c.dtype))
    if isinstance(v, XR):
        return XR(b_or(v.p, v.n), False, py_abs(it, v.v))
    return ite(cmp_('<', v, 0), neg(v), v)


def norm(it, v):
    c = as_nd(it, v)
    if c.ndim != 1:
        raise Unsupported("matrix norm")
    s = it.ctx.sum(c.shape[0], lambda j: arith('*', c.f(j), c.f(j)))
    if is_sym(s):
        it.ctx.assume(s >= 0)
    return sqrt(it, s)


# ------------------------------------------------------------------ external modules
NP_CONST = {'inf': PINF, 'Inf': PINF, 'infty': PINF}
NP_TYPES = {'float64', 'int64', 'bool_', 'ndarray', 'float32', 'int32'}


def ext_attr(it, mod, name):
    full = mod.name + '.' + name
    if mod.name == 'numpy':
        if name in NP_CONST:
            return NP_CONST[name]
        if name == 'linalg':
            return ExtModule('numpy.linalg')
        if name in NP_TYPES:
            return Builtin('np.' + name if name != 'ndarray' else 'ndarray',
                           lambda it, a, k, n=name: cast(it, n.rstrip('_'), a[0]))
        return Builtin('np.' + name, lambda it, a, k: np_fn(it, name, a, k))
    if full == 'numpy.linalg.norm':
        return Builtin(full, lambda it, a, k: norm(it, a[0]))
    if mod.name == 'math':
        if name in ('floor',):
            return Builtin(full, lambda it, a, k: floor(it, a[0]))
        if name == 'ceil':
            return Builtin(full, lambda it, a, k: neg(floor(it, neg(a[0]))))
        if name == 'sqrt':
            return Builtin(full, lambda it, a, k: sqrt(it, a[0]))
        if name == 'inf':
            return PINF
        if name == 'isinf':
            return Builtin(full, lambda it, a, k: np_fn(it, 'isinf', a, k))
        if name == 'isclose':
            raise Unsupported("math.isclose")
    if mod.name == 'random':
        if name == 'sample':
            return Builtin(full, rnd_sample)
        if name == 'shuffle':
            return Builtin(full, rnd_shuffle)
        if name == 'seed':
            return Builtin(full, lambda it, a, k: None)
    if mod.name == 'copy':
        if name in ('copy', 'deepcopy'):
            return Builtin(full, lambda it, a, k: do_copy(it, a[0], name == 'deepcopy'))
    if mod.name == 'time':
        if name in ('time', 'perf_counter', 'monotonic'):
            return Builtin(full, lambda it, a, k: clock(it, 'clock' if name == 'time' else 'clock:' + name))
    if mod.name == 'csv':
        if name == 'QUOTE_NONNUMERIC':
            return 2
        if name == 'QUOTE_MINIMAL':
            return 0
        return Builtin(full, lambda it, a, k: csv_fn(it, name, a, k))
    if mod.name == 'os':
        if name == 'path':
            return ExtModule('os.path')
        if name == 'environ':
            return Opaque('os.environ')
    if mod.name == 'os.path':
        return Builtin(full, lambda it, a, k: os_path(it, name, a))
    if mod.name == 'numbers' or mod.name == 'typing':
        return Opaque(full)
    if mod.name == 'itertools' and name == 'chain':
        raise Unsupported("itertools.chain")
    h = it.ext.get(mod.name)
    if h is not None:
        return h(it, name)
    return Opaque(full)


def os_path(it, name, a):
    h = getattr(it, 'path_model', None)
    if h is not None:
        return h(it, name, a)
    if name == 'basename':
        return StrV([('fmt', 'basename', 0)])
    if name == 'splitext':
        return (StrV([('fmt', 'stem', 0)]), StrV([('fmt', 'ext', 0)]))
    raise Unsupported("os.path." + name)


def rnd_sample(it, a, k):
    s = it.iter_seq(a[0])
    n = a[1] if len(a) > 1 else k['k']
    full = _eqdim(s.n, n) or it.ctx.prove_quick(cmp_('==', s.n, n), ms=500)
    sig, inv = fresh_perm(it, s.n, 'sample')
    p = Perm(s, sig, inv)
    if full:
        return it.new_list(p)
    it.ctx.oblige("random.sample: size within the population", b_and(cmp_('<=', 0, n), cmp_('<=', n, s.n)))
    return it.new_list(Stride(p, 0, 1, n))


def rnd_shuffle(it, a, k):
    c = it.content(a[0])
    sig, inv = fresh_perm(it, c.n, 'shuffle')
    it.set_content(a[0], Perm(c, sig, inv))
    return None


def do_copy(it, v, deep):
    if isinstance(v, Ref) and v.kind in ('list', 'nd', 'dict', 'set'):
        c = it.st.heap[v.id]
        if deep:
            c = it.freeze_content(c)
            return it.new(v.kind, c)
        r = it.new(v.kind, c)
        if v.kind == 'list' and not isinstance(c, Nd):
            # nested mutable elements stay shared with the original
            if has_mutable_elems(it, c):
                c2 = Concat(c, Lit([])) if not isinstance(c, Lit) else Lit(c.items)
                c2.shared = True
                it.st.heap[r.id] = c2
        return r
    if isinstance(v, Frozen):
        k = it.kind(v)
        if k in ('list', 'nd', 'dict', 'set'):
            return it.new(k, v.content)
        return v
    if is_numlike(v) or isinstance(v, (str, StrV, tuple)) or v is None:
        return v
    if isinstance(v, IteV):
        return it.vite(v.c, do_copy(it, v.a, deep), do_copy(it, v.b, deep))
    raise Unsupported("copy of %s" % it.kind(v))


def has_mutable_elems(it, c):
    if isinstance(c, Lit):
        return any(isinstance(x, (Ref, Frozen)) for x in c.items)
    if isinstance(c, Concat):
        return has_mutable_elems(it, c.a) or has_mutable_elems(it, c.b)
    try:
        return isinstance(c.at(z3.IntVal(0)), (Ref, Frozen))
    except Unsupported:
        return True


def clock(it, which='clock'):
    ctx = it.ctx
    t = ctx.fresh('now', RS)
    h = it.st.heap
    last = h.get(which)
    if last is not None:
        ctx.assume(cmp_('<=', last, t))
    h[which] = t
    ctx.assumptions.add("time.time() readings do not go backwards")
    return t


class FileV:
    def __init__(self, path, mode):
        self.path, self.mode = path, mode

    def get_attr(self, it, name):
        if name == 'close':
            return Builtin('close', lambda it, a, k: None)
        raise Unsupported("file." + name)


class WriterV:
    def __init__(self, f):
        self.f = f

    def get_attr(self, it, name):
        return Builtin('csv.writer.' + name, lambda it, a, k: self.write(it, name, a))

    def write(self, it, name, a):
        if name == 'writerow':
            it.written.append((self.f.path, it.freeze(a[0]), b_and(*it.ctx.guard)))
            if len(it.ctx.scopes) > 1:
                raise Unsupported("rows written in a loop")
            return None
        if name == 'writerows':
            it.written.append((self.f.path, ('rows', it.freeze(a[0])), b_and(*it.ctx.guard)))
            return None
        raise Unsupported("csv.writer." + name)


def csv_fn(it, name, a, k):
    if name == 'reader':
        f = a[0]
        h = getattr(it, 'csv_rows', None)
        if h is None:
            raise Unsupported("csv.reader")
        return h(it, f, k)
    if name == 'writer':
        return WriterV(a[0])
    raise Unsupported("csv." + name)


# ------------------------------------------------------------------ built-in functions
def builtin(it, name):
    if name in EXC_PARENT:
        return ExcType(name)
    f = BUILTINS.get(name)
    if f is None:
        if name in ('True', 'False', 'None'):
            return {'True': True, 'False': False, 'None': None}[name]
        it.ctx.oblige("name %s is defined" % name, False)
        raise DeadPath()
    return Builtin(name, f)


def bi_len(it, a, k):
    if isinstance(a[0], IteV):
        return it.lift2(a[0], lambda v: bi_len(it, [v], k))
    m = getattr(a[0], 'length', None)
    if m is not None:
        return m(it)
    if a[0] is None or is_numlike(a[0]):
        it.raise_exc('TypeError', 'len')
    return length(it, a[0])


def bi_range(it, a, k):
    a = [to_int_strict(it, x) for x in a]
    if len(a) == 1:
        n = a[0]
        if is_sym(n) and not it.ctx.prove_quick(n >= 0, ms=400):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        elif isinstance(n, int):
            n = max(n, 0)
        return Frozen(Rng(n), None, 'range')
    lo, hi = a[0], a[1]
    step = a[2] if len(a) > 2 else 1
    if conc(step) is not None and conc(step) < 0:
        n = stride_len(it, neg(lo), neg(hi), -conc(step))
        return Frozen(Rng(n, lo, conc(step)), None, 'range')
    if conc(step) is None:
        it.ctx.oblige("range step is positive", cmp_('<', 0, step))
    if conc(step) == 1:
        n = arith('-', hi, lo)
        if is_sym(n) and not it.ctx.prove_quick(n >= 0, ms=400):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        elif isinstance(n, int):
            n = max(n, 0)
        return Frozen(Rng(n, lo, 1), None, 'range')
    return Frozen(Rng(stride_len(it, lo, hi, step), lo, step), None, 'range')


def to_int_strict(it, v):
    if isinstance(v, (bool, int)) or (is_sym(v) and v.sort() in (I, B)):
        return num(v)
    if isinstance(v, IteV):
        raise Unsupported("range of a value of unknown type")
    if is_numlike(v):
        it.raise_exc('TypeError', 'integer expected')
    raise Unsupported("integer expected")


def bi_enumerate(it, a, k):
    s = it.iter_seq(a[0])
    start = a[1] if len(a) > 1 else k.get('start', 0)
    if isinstance(s, Lit):
        return Frozen(Lit([(arith('+', start, j), x) for j, x in enumerate(s.items)]), None, 'gen')
    return Frozen(Fn(s.n, lambda q: (arith('+', start, q), s.at(q))), None, 'gen')


def bi_zip(it, a, k):
    ss = [it.iter_seq(x) for x in a]
    n = ss[0].n
    for s in ss[1:]:
        if not _eqdim(n, s.n):
            cn, cs = conc(n), conc(s.n)
            if cn is not None and cs is not None:
                n = min(cn, cs)
            elif it.ctx.prove_full(cmp_('==', n, s.n), ms=1000):
                pass
            else:
                n = ite(cmp_('<=', n, s.n), n, s.n)
    if all(isinstance(s, Lit) for s in ss) and isinstance(n, int):
        return Frozen(Lit([tuple(s.items[j] for s in ss) for j in range(n)]), None, 'gen')
    return Frozen(Fn(n, lambda q: tuple(s.at(q) for s in ss)), None, 'gen')


def bi_list(it, a, k):
    if not a:
        return it.new_list(Lit([]))
    v = a[0]
    if isinstance(v, str):
        return it.new_list(Lit(list(v)))
    s = it.iter_seq(v)
    c = it.content(v) if not isinstance(v, IteV) else None
    r = it.new_list(s)
    if it.kind(v) == 'list' and has_mutable_elems(it, s):
        s2 = Concat(s, Lit([])) if not isinstance(s, Lit) else Lit(s.items)
        s2.shared = True
        it.st.heap[r.id] = s2
    return r


def bi_set(it, a, k):
    if not a:
        return it.new('set', SetC(lambda x: False, Lit([]), True))
    v = a[0]
    s = it.iter_seq(v)
    distinct = isinstance(s, Rng) or it.kind(v) in ('dict',)
    return it.new('set', SetC(lambda x: member(it.ctx, s, x), s, distinct))


def bi_frozenset(it, a, k):
    v = bi_set(it, a, k)
    it.content(v).frozen = True
    return v


def bi_dict(it, a, k):
    if not a:
        return it.new_dict(DLit(k))
    v = a[0]
    if it.kind(v) == 'dict':
        return it.new_dict(it.content(v))
    return it.new_dict(dict_of_pairs(it, it.iter_seq(v)))


def dict_of_pairs(it, s):
    ctx = it.ctx
    if isinstance(s, Lit):
        d = DLit({})
        for key, v in s.items:
            if is_symv(key):
                raise Unsupported("dictionary of symbolic keys")
            d = DLit({**d.items, key: v})
        return d
    q = ctx.bound('q')
    kv = s.at(q)
    key, val = kv
    if is_sym(key) and key.eq(q):
        return Dct(lambda x: b_and(cmp_('<=', 0, x), cmp_('<', x, s.n)), lambda x: vsubst(val, [(q, IT(x))]),
                   Rng(s.n))
    inj = keys_injective(it, s.n, lambda j: s.at(j)[0])
    if not inj:
        raise Unsupported("dictionary with possibly repeated symbolic keys")
    inv = ctx.fresh_fn('kinv', [I], I)
    ctx.assume(z3.ForAll([q], T(b_implies(b_and(cmp_('<=', 0, q), cmp_('<', q, s.n)), inv(IT(key)) == q))))
    return Dct(lambda x: member(ctx, map_seq(s, lambda p: p[0]), x), lambda x: s.at(inv(IT(x)))[1],
               map_seq(s, lambda p: p[0]))


def keys_injective(it, n, f):
    ctx = it.ctx
    i, j = ctx.bound('i'), ctx.bound('j')
    goal = z3.ForAll([i, j], T(b_implies(b_and(cmp_('<=', 0, i), cmp_('<', i, j), cmp_('<', j, n)),
                                        b_not(veq(f(i), f(j))))))
    return ctx.prove_full(goal, ms=2000)


def bi_sum(it, a, k):
    v = a[0]
    init = a[1] if len(a) > 1 else k.get('start', 0)
    if it.kind(v) == 'nd':
        r = nd_sum(it, it.content(v))
    else:
        s = it.iter_seq(v)
        if isinstance(s, Lit) and any(not is_numlike(x) for x in s.items):
            acc = init
            for x in s.items:
                acc = it.binop('Add', acc, x)
            return acc
        if not isinstance(s, Lit):
            x0 = s.at(z3.IntVal(0))
            if isinstance(x0, Frozen) and it.is_container(init):
                return it.new_list(mkconcat(it.content(init), Flat(it.ctx, s.n, lambda c: s.at(c).content)))
            if not is_numlike(x0):
                raise Unsupported("sum of non-numbers")
        r = wsum(it.ctx, s, lambda x: num(x))
    return arith('+', init, r)


def bi_minmax(kind):
    def f(it, a, k):
        key = k.get('key')
        if len(a) == 1:
            v = a[0]
            if isinstance(v, IteV):
                return it.lift2(v, lambda x: f(it, [x], k))
            c = it.content(v) if not isinstance(v, tuple) else Lit(v)
            if isinstance(c, Nd):
                return nd_extremum(it, kind, c)
            s = seq_of(c) if not isinstance(c, Dct) else keys_of(it, c)
            dflt = k.get('default', UNDEF)
            if dflt is not UNDEF:
                e = cmp_('==', s.n, 0)
                if e is True:
                    return dflt
                if e is not False:
                    return it.branch(e, lambda: dflt, lambda: extremum(it, kind, s, key))
            return extremum(it, kind, s, key)
        if key is not None:
            raise Unsupported("min/max with key")
        acc = a[0]
        for x in a[1:]:
            if isinstance(acc, IteV) or isinstance(x, IteV):
                raise Unsupported("min/max of values of unknown type")
            if not (is_numlike(acc) and is_numlike(x)):
                if isinstance(acc, tuple):
                    raise Unsupported("min/max of tuples")
                it.raise_exc('TypeError', 'min/max')
            # python keeps the first of equal values
            acc = minmax2(kind, acc, x)
        return acc
    return f


def bi_sorted(it, a, k):
    v = a[0]
    c = it.content(v) if not isinstance(v, IteV) else None
    s = keys_of(it, c) if isinstance(c, Dct) else it.iter_seq(v)
    return it.new_list(sort_seq(it, s, k.get('key'), k.get('reverse', False)))


def bi_isinstance(it, a, k):
    v, ts = a
    if isinstance(v, IteV):
        return it.lift2(v, lambda x: bi_isinstance(it, [x, ts], k))
    ts = ts if isinstance(ts, tuple) else (ts,)
    kd = it.kind(v)
    for t in ts:
        if isinstance(t, ClassV):
            if isinstance(v, Ref) and v.kind == 'obj' and it.st.heap[v.id].cls.issub(t):
                return True
        elif isinstance(t, Builtin):
            n = t.name
            if n == kd or (n == 'int' and kd == 'bool') or (n == 'ndarray' and kd == 'nd') \
                    or (n == 'frozenset' and kd == 'set'):
                return True
            if n in ('np.int64', 'np.integer') and kd == 'int':
                raise Unsupported("isinstance of a numpy integer type")
        elif isinstance(t, ExcType):
            if isinstance(v, ExcV) and t.covers(v.name):
                return True
        else:
            raise Unsupported("isinstance of an external type")
    return False


def bi_reversed(it, a, k):
    s = it.iter_seq(a[0])
    if isinstance(s, Lit):
        return Frozen(Lit(s.items[::-1]), None, 'gen')
    return Frozen(slice_seq(it, s, slice(None, None, -1)), None, 'gen')


def bi_any(it, a, k):
    s = it.iter_seq(a[0])
    if isinstance(s, Lit):
        return b_or(*[it.truth(x) for x in s.items])
    return seq_exists(it, s, lambda x: it.truth(x))


def bi_all(it, a, k):
    s = it.iter_seq(a[0])
    if isinstance(s, Lit):
        return b_and(*[it.truth(x) for x in s.items])
    return b_not(seq_exists(it, s, lambda x: b_not(it.truth(x))))


def seq_exists(it, s, f):
    ctx = it.ctx
    if isinstance(s, Lit):
        return b_or(*[f(x) for x in s.items])
    if isinstance(s, Concat):
        return b_or(seq_exists(it, s.a, f), seq_exists(it, s.b, f))
    if isinstance(s, Filter):
        return ctx.exists(s.src_n, lambda j: b_and(s.cond(j), f(s.val(j))))
    if isinstance(s, Perm):
        return seq_exists(it, s.base, f)
    if isinstance(s, Flat):
        return ctx.exists(s.outer_n, lambda c: seq_exists(it, s.inner(c), f))
    if isinstance(s, IteSeq):
        return b_ite(s.c, seq_exists(it, s.a, f), seq_exists(it, s.b, f))
    return ctx.exists(s.n, lambda k: f(s.at(k)))


def bi_map(it, a, k):
    s = it.iter_seq(a[1])
    if isinstance(s, Lit):
        return Frozen(Lit([it.call(a[0], [x]) for x in s.items]), None, 'gen')
    f = key_fn(it, s, a[0])
    return Frozen(Fn(s.n, f), None, 'gen')


def bi_filter(it, a, k):
    s = it.iter_seq(a[1])
    f = key_fn(it, s, a[0])
    q = it.ctx.bound('q')
    return Frozen(mk_filter(it.ctx, s.n, q, it.truth(f(q)), s.at(q)), None, 'gen')


def bi_print(it, a, k):
    return None


def bi_round(it, a, k):
    if len(a) == 1 or a[1] is None:
        v = num(a[0])
        if isinstance(v, int):
            return v
        r = np_round_scalar(it, v, 0)
        return z3.ToInt(r)
    return np_round_scalar(it, a[0], conc(a[1]))


def bi_tuple(it, a, k):
    s = it.iter_seq(a[0]) if a else Lit([])
    if isinstance(s, Lit):
        return tuple(s.items)
    return Frozen(s, None, 'tuple')


def bi_open(it, a, k):
    mode = a[1] if len(a) > 1 else k.get('mode', 'r')
    h = getattr(it, 'on_open', None)
    if h is not None:
        h(it, a[0], mode)
    return FileV(a[0], mode)


def bi_next(it, a, k):
    v = a[0]
    m = getattr(v, 'next', None)
    if m is not None:
        return m(it)
    if it.kind(v) == 'gen':
        s = it.iter_seq(v)
        if len(a) > 1:
            e = cmp_('==', s.n, 0)
            if e is True:
                return a[1]
            first = s.at(0)
            return ite(e, a[1], first) if e is not False else first
        it.ctx.oblige("next: the generator yields", cmp_('<', 0, s.n))
        return s.at(0)
    raise Unsupported("next")


def bi_divmod(it, a, k):
    return (it.binop('FloorDiv', a[0], a[1]), it.binop('Mod', a[0], a[1]))


def bi_bool(it, a, k):
    return it.truth(a[0]) if a else False


def bi_type(it, a, k):
    v = a[0]
    if isinstance(v, Ref) and v.kind == 'obj':
        return it.st.heap[v.id].cls
    return attr(it, v, '__class__')


def bi_getattr(it, a, k):
    return it.getattr(a[0], a[1])


def bi_hasattr(it, a, k):
    o = a[0]
    if isinstance(o, Ref) and o.kind == 'obj':
        c = it.st.heap[o.id]
        if a[1] in c.fields:
            return c.fields[a[1]] is not UNDEF
        return it.class_attr(c.cls, a[1])[0]
    raise Unsupported("hasattr")


BUILTINS = {
    'len': bi_len, 'range': bi_range, 'enumerate': bi_enumerate, 'zip': bi_zip, 'list': bi_list,
    'set': bi_set, 'frozenset': bi_frozenset, 'dict': bi_dict, 'sum': bi_sum, 'min': bi_minmax('min'),
    'max': bi_minmax('max'), 'sorted': bi_sorted, 'isinstance': bi_isinstance, 'reversed': bi_reversed,
    'any': bi_any, 'all': bi_all, 'map': bi_map, 'filter': bi_filter, 'print': bi_print,
    'abs': lambda it, a, k: py_abs(it, a[0]), 'int': lambda it, a, k: to_int(it, a[0]) if a else 0,
    'float': lambda it, a, k: to_float(it, a[0]) if a else Fraction(0),
    'str': lambda it, a, k: to_str(it, a[0]) if a else '', 'round': bi_round, 'tuple': bi_tuple,
    'open': bi_open, 'next': bi_next, 'divmod': bi_divmod, 'bool': bi_bool, 'type': bi_type,
    'getattr': bi_getattr, 'hasattr': bi_hasattr,
    'iter': lambda it, a, k: Frozen(it.iter_seq(a[0]), None, 'gen'),
    'format': lambda it, a, k: fmt(it, a[1] if len(a) > 1 else '', a[0]),
}
