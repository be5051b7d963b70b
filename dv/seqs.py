"""Symbolic sequences, n-d arrays, dictionaries; value-level ite / substitution / equality."""
from .core import *
from . import core


# ------------------------------------------------------------------ sequences
class Seq:
    """mathematical sequence: n (length), at(k) for 0 <= k < n"""
    shared = False        # elements may be shared mutable objects


class Lit(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = len(self.items)

    def at(self, k):
        k = num(k)
        if is_sym(k):
            k = z3.simplify(k)
            if z3.is_int_value(k):
                k = k.as_long()
        if isinstance(k, int):
            if 0 <= k < self.n:
                return self.items[k]
            raise Unsupported("index %d of a literal sequence of length %d" % (k, self.n))
        if not self.items:
            raise Unsupported("symbolic index into an empty literal")
        v = self.items[-1]
        for j in range(self.n - 2, -1, -1):
            v = ite(cmp_('==', k, j), self.items[j], v)
        return v


class Fn(Seq):
    def __init__(self, n, f):
        self.n, self.f = n, f

    def at(self, k):
        return self.f(k)


# positions i, i+n, i+2n, ... with a symbolic distance n (axioms: lib.deal_axioms)
DEALPOS = z3.Function('dealpos', I, I, I, I)
DEALLEN = z3.Function('deallen', I, I, I, I)
DEALROW = z3.Function('dealrow', I, I, I)
DEALIDX = z3.Function('dealidx', I, I, I)


def step_pos(lo, k, step):
    if is_sym(step):
        return DEALPOS(IT(lo), IT(k), IT(step))
    return arith('+', lo, arith('*', k, step))


class Rng(Seq):
    """lo, lo+step, ... (n elements)"""

    def __init__(self, n, lo=0, step=1):
        self.n, self.lo, self.step = n, lo, step

    def at(self, k):
        return step_pos(self.lo, k, self.step)

    def plain(self):
        return isinstance(self.lo, int) and self.lo == 0 and isinstance(self.step, int) and self.step == 1


class Concat(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self.n = arith('+', a.n, b.n)

    def at(self, k):
        if isinstance(self.a, Lit) and self.a.n == 0:
            return self.b.at(k)
        if isinstance(self.b, Lit) and self.b.n == 0:
            return self.a.at(k)
        c = cmp_('<', k, self.a.n)
        if c is True:
            return self.a.at(k)
        if c is False:
            return self.b.at(arith('-', k, self.a.n))
        kb = z3.simplify(T(arith('-', k, self.a.n))) if is_sym(k) or is_sym(self.a.n) else arith('-', k, self.a.n)
        if is_sym(kb) and z3.is_int_value(kb):
            v = kb.as_long()
            return self.b.at(v) if v >= 0 else self.a.at(k)
        return ite(c, self.a.at(k), self.b.at(kb))


class Filter(Seq):
    """[val(j) for j < src_n if cond(j)]; pos(p): p-th selected index, cnt(j): number selected before j"""

    def __init__(self, ctx, src_n, cond, val):
        self.src_n, self.cond, self.val = src_n, cond, val
        self.n = ctx.sum(src_n, lambda j: ite(cond(j), 1, 0))
        self.pos = ctx.filter_pos(src_n, cond, self.n)

    def at(self, p):
        return self.val(self.pos(p))


class Store(Seq):
    def __init__(self, base, i, v):
        self.base, self.i, self.v = base, i, v
        self.n = base.n

    def at(self, k):
        c = cmp_('==', k, self.i)
        if c is True:
            return self.v
        if c is False:
            return self.base.at(k)
        return ite(c, self.v, self.base.at(k))


class Del(Seq):
    def __init__(self, base, i):
        self.base, self.i = base, i
        self.n = arith('-', base.n, 1)

    def at(self, k):
        return ite(cmp_('<', k, self.i), self.base.at(k), self.base.at(arith('+', k, 1)))


class Stride(Seq):
    """base[lo], base[lo+step], ... n elements"""

    def __init__(self, base, lo, step, n):
        self.base, self.lo, self.step, self.n = base, lo, step, n

    def at(self, k):
        return self.base.at(step_pos(self.lo, k, self.step))


class Perm(Seq):
    """base reordered by a permutation: at(k) = base.at(sig(k)); inv is the inverse"""

    def __init__(self, base, sig, inv):
        self.base, self.sig, self.inv = base, sig, inv
        self.n = base.n

    def at(self, k):
        return self.base.at(self.sig(k))


class IteSeq(Seq):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self.n = ite(c, a.n, b.n)

    def at(self, k):
        a = b = None
        if isinstance(self.a, Lit) and self.a.n == 0:
            return self.b.at(k)
        if isinstance(self.b, Lit) and self.b.n == 0:
            return self.a.at(k)
        return ite(self.c, self.a.at(k), self.b.at(k))


class Flat(Seq):
    """concatenation of the sequences inner(c), c < outer_n"""

    def __init__(self, ctx, outer_n, inner):
        self.outer_n, self.inner = outer_n, inner
        self.n = ctx.sum(outer_n, lambda c: inner(c).n)
        self.ctx = ctx
        self._loc = None

    def at(self, k):
        if self._loc is None:
            self._loc = self.ctx.flat_loc(self)
        c, i = self._loc
        return self.inner(c(k)).at(i(k))


class InSeq(Seq):
    """placeholder for the content of a list at the start of a loop iteration"""

    def __init__(self, tag, n, at, base):
        self.tag, self.n, self._at, self.base = tag, n, at, base

    def at(self, k):
        return self._at(k)


# ------------------------------------------------------------------ arrays
class Nd:
    """numpy array: shape (tuple of ints), f(*idx) -> scalar, dtype in 'i','f','b','o'"""

    def __init__(self, shape, f, dtype='f', seq=None):
        self.shape, self.f, self.dtype, self.seq = tuple(shape), f, dtype, seq
        self.writes = None      # (base Nd, idx, value): structural store, for loop analysis

    def at(self, *idx):
        return self.f(*idx)

    @property
    def ndim(self):
        return len(self.shape)


class NdStore(Nd):
    def __init__(self, base, idx, v):
        self.base, self.idx, self.v = base, tuple(idx), v

        def f(*q):
            c = b_and(*[cmp_('==', a, b) for a, b in zip(q, self.idx)])
            if c is True:
                return v
            if c is False:
                return base.f(*q)
            return ite(c, v, base.f(*q))
        Nd.__init__(self, base.shape, f, base.dtype)


class NdIte(Nd):
    def __init__(self, c, a, b):
        if a.ndim != b.ndim:
            raise Unsupported("arrays of different rank merged")
        self.c, self.a, self.b = c, a, b
        Nd.__init__(self, [ite(c, x, y) for x, y in zip(a.shape, b.shape)],
                    lambda *q: ite(c, a.f(*q), b.f(*q)), a.dtype if a.dtype == b.dtype else 'f')


class NdIn(Nd):
    def __init__(self, tag, base, f):
        self.tag, self.base = tag, base
        Nd.__init__(self, base.shape, f, base.dtype)


# ------------------------------------------------------------------ dictionaries
class Dct:
    """has(key) -> Bool, get(key) -> value, keys: Seq of the distinct keys in insertion order (or None)"""

    def __init__(self, has, get, keys=None):
        self.has, self.get, self.keys = has, get, keys


class DLit(Dct):
    """concrete keys"""

    def __init__(self, items):
        self.items = dict(items)
        Dct.__init__(self, self._has, self._get, Lit(list(self.items)))

    def _has(self, k):
        return b_or(*[veq(k, q) for q in self.items]) if self.items else False

    def _get(self, k):
        if not is_symv(k):
            if k in self.items:
                return self.items[k]
            raise Unsupported("missing key %r" % (k,))
        its = list(self.items.items())
        if not its:
            raise Unsupported("read of an empty dictionary")
        v = its[-1][1]
        for q, w in reversed(its[:-1]):
            v = ite(veq(k, q), w, v)
        return v


class DStore(Dct):
    def __init__(self, base, key, v):
        self.base, self.key, self.v = base, key, v
        Dct.__init__(self, self._has, self._get, None)
        self._keys = False

    def _has(self, k):
        return b_or(veq(k, self.key), self.base.has(k))

    def _get(self, k):
        c = veq(k, self.key)
        if c is True:
            return self.v
        if c is False:
            return self.base.get(k)
        if isinstance(self.base, DLit) and not self.base.items:
            return self.v
        return ite(c, self.v, self.base.get(k))


class DPop(Dct):
    def __init__(self, base, key):
        self.base, self.key = base, key
        Dct.__init__(self, lambda k: b_and(b_not(veq(k, key)), base.has(k)), base.get, None)


class DIte(Dct):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

        def get(k):
            if isinstance(a, DLit) and not a.items:
                return b.get(k)
            if isinstance(b, DLit) and not b.items:
                return a.get(k)
            return ite(c, a.get(k), b.get(k))
        Dct.__init__(self, lambda k: b_ite(c, a.has(k), b.has(k)), get, None)


class DIn(Dct):
    def __init__(self, tag, base, has, get):
        self.tag, self.base = tag, base
        Dct.__init__(self, has, get, None)


# ------------------------------------------------------------------ values
def b_ite(c, a, b):
    if a is b:
        return a
    if isinstance(a, bool) and isinstance(b, bool) and a == b:
        return a
    if c is True:
        return a
    if c is False:
        return b
    return b_or(b_and(c, a), b_and(b_not(c), b))


def is_symv(v):
    if is_sym(v):
        return True
    if isinstance(v, tuple):
        return any(is_symv(x) for x in v)
    return isinstance(v, (IteV, StrV, Frozen, Ref, XR))


def ite(c, a, b):
    """value-level conditional"""
    if c is True:
        return a
    if c is False:
        return b
    if is_sym(c):
        if z3.is_true(c):
            return a
        if z3.is_false(c):
            return b
    if a is b:
        return a
    if is_sym(c):
        from .interp import IteV
        if isinstance(a, IteV) and is_sym(a.c) and a.c.eq(c):
            return ite(c, a.a, b)
        if isinstance(b, IteV) and is_sym(b.c) and b.c.eq(c):
            return ite(c, a, b.b)
    if is_boolv(a) and is_boolv(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else b_not(c)
        if is_sym(a) and is_sym(b) and a.eq(b):
            return a
        return z3.If(T(c), T(a), T(b))
    if is_numlike(a) and is_numlike(b) and not is_boolv(a) and not is_boolv(b):
        if isinstance(a, XR) or isinstance(b, XR):
            x, y = xr(a), xr(b)
            xv, yv = x.v, y.v
            if x.p is True or x.n is True:
                xv = yv
            if y.p is True or y.n is True:
                yv = xv
            return xr_norm(XR(b_ite(c, x.p, y.p), b_ite(c, x.n, y.n), ite(c, xv, yv)))
        if not is_sym(a) and not is_sym(b) and a == b and type(a) is type(b):
            return a
        if is_sym(a) and is_sym(b) and a.eq(b):
            return a
        if is_realv(a) or is_realv(b):
            return z3.If(T(c), R(a), R(b))
        return z3.If(T(c), IT(a), IT(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, Frozen) and isinstance(b, Frozen):
        ca, cb = a.content, b.content
        try:
            return Frozen(content_ite(c, ca, cb))
        except Unsupported:
            return IteV(c, a, b)
    if isinstance(a, str) and isinstance(b, str) and a == b:
        return a
    if a is None and b is None:
        return None
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return a
    if isinstance(a, (StrV, str)) and isinstance(b, (StrV, str)):
        if str_parts(a) == str_parts(b):
            return a
    if a is UNDEF:
        return UNDEF if b is UNDEF else IteV(c, a, b)
    if isinstance(a, IteV) and is_sym(c) and is_sym(a.c) and a.c.eq(c):
        a = a.a
    if isinstance(b, IteV) and is_sym(c) and is_sym(b.c) and b.c.eq(c):
        b = b.b
    m = getattr(a, 'merge_ite', None)
    if m is not None:
        r = m(c, b)
        if r is not None:
            return r
    return IteV(c, a, b)


def content_ite(c, a, b):
    if a is b or c is True:
        return a
    if c is False:
        return b
    if isinstance(a, Lit) and isinstance(b, Lit) and len(a.items) == len(b.items) and \
            all(is_numlike(x) and is_numlike(y) for x, y in zip(a.items, b.items)):
        return Lit([ite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, Seq) and isinstance(b, Seq):
        return IteSeq(c, a, b)
    if isinstance(a, Nd) and isinstance(b, Nd):
        return NdIte(c, a, b)
    if isinstance(a, Dct) and isinstance(b, Dct):
        m = getattr(a, 'merge_same', None)
        r = m(c, b) if m is not None and type(a) is type(b) else None
        return r if r is not None else DIte(c, a, b)
    if isinstance(a, SetC) and isinstance(b, SetC):
        return SetC(lambda x: b_ite(c, a.mem(x), b.mem(x)))
    if isinstance(a, ObjC) and isinstance(b, ObjC) and a.cls is b.cls:
        f = {}
        for k in set(a.fields) | set(b.fields):
            f[k] = ite(c, a.fields.get(k, UNDEF), b.fields.get(k, UNDEF))
        return ObjC(a.cls, f)
    if (is_numlike(a) and is_numlike(b)) or (is_boolv(a) and is_boolv(b)):
        return ite(c, a, b)
    m = getattr(a, 'merge_ite', None)
    if m is not None:
        return m(c, b)
    raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))


def vsubst(v, pairs):
    """capture-avoiding-enough substitution (index symbols are globally unique)"""
    if not pairs:
        return v
    if is_sym(v):
        return z3.substitute(v, *pairs)
    if isinstance(v, XR):
        return XR(vsubst(v.p, pairs), vsubst(v.n, pairs), vsubst(v.v, pairs))
    if isinstance(v, (bool, int, Fraction, str)) or v is None or v is UNDEF:
        return v
    if isinstance(v, tuple):
        return tuple(vsubst(x, pairs) for x in v)
    if isinstance(v, IteV):
        return ite(vsubst(v.c, pairs), vsubst(v.a, pairs), vsubst(v.b, pairs))
    if isinstance(v, Frozen):
        return Frozen(csubst(v.content, pairs))
    if isinstance(v, StrV):
        return StrV([p if isinstance(p, str) else tuple(vsubst(x, pairs) for x in p) for p in v.parts])
    m = getattr(v, 'subst', None)
    if m is not None:
        return m(pairs)
    return v


def lift_subst(f, pairs):
    """substitution applied to the result of a closure, sparing the closure's arguments"""
    def g(*args):
        ph = []
        for a in args:
            if is_sym(a):
                ph.append((z3.Const("ph!%d" % core.uid_fixed(), a.sort()), a))
            else:
                ph.append(None)
        r = f(*[p[0] if p else a for p, a in zip(ph, args)])
        r = vsubst(r, pairs)
        return vsubst(r, [p for p in ph if p])
    return g


def csubst(c, pairs):
    if isinstance(c, Lit):
        return Lit([vsubst(x, pairs) for x in c.items])
    if isinstance(c, Rng):
        return Rng(vsubst(c.n, pairs), vsubst(c.lo, pairs), vsubst(c.step, pairs))
    if isinstance(c, Fn):
        return Fn(vsubst(c.n, pairs), lift_subst(c.f, pairs))
    if isinstance(c, Concat):
        return Concat(csubst(c.a, pairs), csubst(c.b, pairs))
    if isinstance(c, Store):
        return Store(csubst(c.base, pairs), vsubst(c.i, pairs), vsubst(c.v, pairs))
    if isinstance(c, Del):
        return Del(csubst(c.base, pairs), vsubst(c.i, pairs))
    if isinstance(c, Stride):
        return Stride(csubst(c.base, pairs), vsubst(c.lo, pairs), vsubst(c.step, pairs), vsubst(c.n, pairs))
    if isinstance(c, IteSeq):
        return IteSeq(vsubst(c.c, pairs), csubst(c.a, pairs), csubst(c.b, pairs))
    if isinstance(c, Perm):
        r = Perm.__new__(Perm)
        r.base, r.sig, r.inv = csubst(c.base, pairs), lift_subst(c.sig, pairs), lift_subst(c.inv, pairs)
        r.n = r.base.n
        return r
    if isinstance(c, Filter):
        r = Filter.__new__(Filter)
        r.src_n, r.n = vsubst(c.src_n, pairs), vsubst(c.n, pairs)
        r.cond, r.val, r.pos = (lift_subst(c.cond, pairs), lift_subst(c.val, pairs), lift_subst(c.pos, pairs))
        return r
    if isinstance(c, Flat):
        r = Flat.__new__(Flat)
        r.outer_n, r.n, r.ctx, r._loc = vsubst(c.outer_n, pairs), vsubst(c.n, pairs), c.ctx, None
        inner = c.inner

        def inn(q):
            ph = z3.Const("ph!%d" % core.uid_fixed(), I)
            return csubst(csubst(inner(ph), pairs), [(ph, IT(q))])
        r.inner = inn
        return r
    if isinstance(c, InSeq):
        return InSeq(c.tag, vsubst(c.n, pairs), lift_subst(c._at, pairs), c.base)
    if isinstance(c, NdStore):
        return NdStore(csubst(c.base, pairs), [vsubst(x, pairs) for x in c.idx], vsubst(c.v, pairs))
    if isinstance(c, Nd):
        r = Nd([vsubst(x, pairs) for x in c.shape], lift_subst(c.f, pairs), c.dtype)
        if c.seq is not None:
            r.seq = csubst(c.seq, pairs)
        return r
    if isinstance(c, DLit):
        return DLit({vsubst(k, pairs): vsubst(x, pairs) for k, x in c.items.items()})
    if isinstance(c, DStore):
        return DStore(csubst(c.base, pairs), vsubst(c.key, pairs), vsubst(c.v, pairs))
    if isinstance(c, Dct) and type(c) is not Dct and 'csubst' in vars(type(c)):
        return c.csubst(pairs)
    if isinstance(c, Dct):
        r = Dct(lift_subst(c.has, pairs), lift_subst(c.get, pairs))
        if c.keys is not None:
            r.keys = csubst(c.keys, pairs)
        if hasattr(c, 'key_probe'):
            r.key_probe = c.key_probe
        return r
    if isinstance(c, SetC):
        r = SetC(lift_subst(c.mem, pairs), csubst(c.seq, pairs) if c.seq is not None else None, c.distinct)
        return r
    if isinstance(c, ObjC):
        return ObjC(c.cls, {k: vsubst(x, pairs) for k, x in c.fields.items()})
    m = getattr(c, 'csubst', None)
    if m is not None:
        return m(pairs)
    raise Unsupported("substitution in %s" % type(c).__name__)


def veq(a, b):
    """equality of keys / scalars (Bool)"""
    if is_numlike(a) and is_numlike(b):
        return cmp_('==', a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        return b_and(*[veq(x, y) for x, y in zip(a, b)])
    if isinstance(a, (str, StrV)) and isinstance(b, (str, StrV)):
        pa, pb = str_parts(a), str_parts(b)
        if pa == pb:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return False
        raise Unsupported("comparison of symbolic strings")
    if isinstance(a, IteV):
        return b_ite(a.c, veq(a.a, b), veq(a.b, b))
    if isinstance(b, IteV):
        return b_ite(b.c, veq(a, b.a), veq(a, b.b))
    if a is None or b is None:
        return a is b
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        return True
    if isinstance(a, Frozen) and isinstance(b, Frozen) and isinstance(a.content, SetC) and isinstance(b.content, SetC):
        if a.content is b.content:
            return True
        x = z3.Const('x?f%d' % core.uid_fixed(), I)
        p, q = a.content.pred(x), b.content.pred(x)
        return z3.ForAll([x], p == q, patterns=[p, q])
    m = getattr(a, 'eq_to', None)
    if m is not None:
        r = m(b)
        if r is not None:
            return r
    if isinstance(a, (str, StrV)) != isinstance(b, (str, StrV)):
        return False
    raise Unsupported("equality of %s and %s" % (type(a).__name__, type(b).__name__))


# ------------------------------------------------------------------ measures over sequences
def wsum(ctx, s, w):
    """sum of w(x) over the elements x of the sequence"""
    if isinstance(s, Lit):
        acc = 0
        for x in s.items:
            acc = arith('+', acc, w(x))
        return acc
    if isinstance(s, Concat):
        return arith('+', wsum(ctx, s.a, w), wsum(ctx, s.b, w))
    if isinstance(s, Filter):
        return ctx.sum(s.src_n, lambda j: ite(s.cond(j), num(w(s.val(j))), 0))
    if isinstance(s, Store):
        return arith('-', arith('+', wsum(ctx, s.base, w), w(s.v)), w(s.base.at(s.i)))
    if isinstance(s, Del):
        return arith('-', wsum(ctx, s.base, w), w(s.base.at(s.i)))
    if isinstance(s, Perm):
        return wsum(ctx, s.base, w)
    if isinstance(s, IteSeq):
        return ite(s.c, num(wsum(ctx, s.a, w)), num(wsum(ctx, s.b, w)))
    if isinstance(s, Flat):
        return ctx.sum(s.outer_n, lambda c: wsum(ctx, s.inner(c), w))
    if isinstance(s, Stride) and isinstance(s.step, int) and s.step == 2 and s.lo in (0, 1) \
            and getattr(s, 'halves', False):
        # even/odd split of base: the two halves add up to the whole (lemma even_odd_sum)
        if s.lo == 0:
            return ctx.sum(s.n, lambda k: w(s.at(k)))
        even = Stride(s.base, 0, 2, s.even_n)
        return arith('-', wsum(ctx, s.base, w), ctx.sum(even.n, lambda k: w(even.at(k))))
    if isinstance(s, Stride) and isinstance(s.step, int) and s.step == -1 and getattr(s, 'full', False):
        return wsum(ctx, s.base, w)
    return ctx.sum(s.n, lambda k: w(s.at(k)))


def member(ctx, s, x):
    """x occurs in the sequence"""
    if isinstance(s, Lit):
        return b_or(*[veq(y, x) for y in s.items])
    if isinstance(s, Rng) and isinstance(s.step, int) and s.step == 1 and is_numlike(x):
        return b_and(cmp_('<=', s.lo, x), cmp_('<', x, arith('+', s.lo, s.n)))
    if isinstance(s, Concat):
        return b_or(member(ctx, s.a, x), member(ctx, s.b, x))
    if isinstance(s, Perm):
        return member(ctx, s.base, x)
    if isinstance(s, IteSeq):
        return b_ite(s.c, member(ctx, s.a, x), member(ctx, s.b, x))
    if isinstance(s, Filter):
        k = ctx.bound('m')
        v = s.val(k)
        if is_sym(v) and v.eq(k) and is_numlike(x):
            return b_and(cmp_('<=', 0, x), cmp_('<', x, s.src_n), s.cond(x))
        return ctx.exists(s.src_n, lambda j: b_and(s.cond(j), veq(s.val(j), x)))
    if isinstance(s, Flat):
        return ctx.exists(s.outer_n, lambda c: member(ctx, s.inner(c), x))
    m = getattr(s, 'mem', None)
    if m is not None:
        return m(x)
    return ctx.exists(s.n, lambda j: veq(s.at(j), x))


def seq_of(c):
    """a content viewed as a sequence of its elements"""
    if isinstance(c, Seq):
        return c
    if isinstance(c, Nd):
        if c.seq is not None:
            return c.seq
        if c.ndim == 1:
            return Fn(c.shape[0], lambda k: c.f(k))
        if c.ndim > 1:
            return Fn(c.shape[0], lambda k: Frozen(Nd(c.shape[1:], lambda *q, k=k: c.f(k, *q), c.dtype)))
    if isinstance(c, SetC) and c.seq is not None and c.distinct:
        return c.seq
    if isinstance(c, Dct) and c.keys is not None:
        return c.keys
    raise Unsupported("iteration over %s" % type(c).__name__)


def nd_of_seq(s, dtype=None):
    """1-d (or n-d for nested) array of a sequence"""
    if isinstance(s, Lit) and s.n == 0:
        return Nd((0,), lambda k: Fraction(0), dtype or 'f', seq=s)
    probe = s.at(z3.IntVal(0) if not isinstance(s, Lit) else 0)
    if isinstance(probe, Frozen):
        c = probe.content
        inner0 = nd_of_seq(c, dtype) if isinstance(c, Seq) else c

        def f(k, *q):
            e = s.at(k)
            ec = e.content if isinstance(e, Frozen) else None
            if ec is None:
                raise Unsupported("ragged array")
            nd = nd_of_seq(ec) if isinstance(ec, Seq) else ec
            return nd.f(*q)
        return Nd((s.n,) + tuple(inner0.shape), f, inner0.dtype)
    if isinstance(probe, IteV) or not is_numlike(probe):
        raise Unsupported("array of %s" % type(probe).__name__)
    if dtype is None:
        dtype = 'b' if is_boolv(probe) else 'f' if is_realv(probe) else 'i'
    if dtype == 'f' and not is_realv(probe):
        return Nd((s.n,), lambda k: toreal(s.at(k)), 'f')
    return Nd((s.n,), lambda k: s.at(k), dtype, seq=s)


def toreal(v):
    v = num(v)
    if isinstance(v, XR):
        return v
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, Fraction):
        return v
    return R(v)
