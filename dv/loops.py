"""Loop summaries.

A loop over a sequence of unknown length is executed once at an arbitrary index k.  For every
location the body modifies the engine derives an inductive closed form (the value at the start of
iteration k as a function of k) from the shape of the body's effect: additive, boolean fold, min/max
fold, conditional overwrite (last-write witness), append / conditional append, keyed store.  The
closed form holds initially and is re-established by the body by construction of its shape; the final
pass re-derives every effect with the closed forms in place and insists that it is the same effect.
What has no such shape keeps an uninterpreted value defined by v(0) = init, v(k+1) = body(v(k)), and
the contract may supply an invariant for it, which is proved at entry and preserved by the body.
Early exits (break, return, raise) end the loop at the first index K whose iteration takes one.
Termination is not proved.
"""
import ast
import z3
from .core import *
from .seqs import *
from . import core
from .interp import DeadPath, Exit, core_LoopLast, mkconcat, mk_filter


def exec_for(it, s, seq):
    if isinstance(seq, Lit) or (isinstance(seq.n, int) and seq.n <= it.sym_unroll):
        return unroll(it, s, seq)
    sp = it.loop_spec(it, s, seq) if it.loop_spec is not None else None
    if sp is not None:
        from .hoare import HoareLoop
        return HoareLoop(it, s, seq, sp).run()
    return SymLoop(it, s, seq).run()


def exec_while(it, s):
    sp = it.loop_spec(it, s, None) if it.loop_spec is not None else None
    if sp is not None:
        from .hoare import HoareLoop
        return HoareLoop(it, s, None, sp).run()
    return SymLoop(it, s, None).run()


def body_outcomes(it, s, value, test=None):
    """run one iteration; returns (outs, exits) with conditions relative to the current guard.
    outs: [(cond, state)] falling through or continuing, exits: break / return / raise / done"""
    ctx = it.ctx
    fr = it.frames[-1]
    g0, g = fr.g0, len(ctx.guard)
    fr.g0 = g
    n0 = len(fr.exits)
    try:
        dead = False
        if test is not None:
            try:
                c = it.decide(it.truth(it.eval(test)))
                if c is False or c is not True:
                    fr.exits.append(Exit(b_and(*(ctx.guard[g:] + [b_not(c)])), 'done', None, it.st.copy()))
                    if c is False:
                        dead = True
                    else:
                        ctx.guard.append(c)
            except DeadPath:
                dead = True
        alive = False
        if not dead:
            try:
                if value is not None:
                    it.assign(s.target, value())
                alive = it.exec_block(s.body)
            except DeadPath:
                alive = False
        rel = b_and(*ctx.guard[g:])
        outs = [(rel, it.st)] if alive and rel is not False else []
        exits = []
        for e in fr.exits[n0:]:
            if e.cond is False:
                continue
            if e.kind == 'continue':
                outs.append((e.cond, e.st))
            else:
                exits.append(e)
    finally:
        del fr.exits[n0:]
        del ctx.guard[g:]
        fr.g0 = g0
    return outs, exits


def merge_outs(it, outs):
    st = outs[-1][1]
    for c, o in reversed(outs[:-1]):
        st = it.merge(c, o, st)
    return b_or(*[c for c, _ in outs]), st


def unroll(it, s, seq):
    ctx = it.ctx
    fr = it.frames[-1]
    g = len(ctx.guard)
    breaks = []                     # (cond relative to g, state)
    alive = True
    for j in range(seq.n):
        outs, exits = body_outcomes(it, s, lambda: seq.at(j))
        pre = ctx.guard[g:]
        for e in exits:
            if e.kind == 'break':
                breaks.append((b_and(*(pre + [e.cond])), e.st))
            else:
                fr.exits.append(Exit(b_and(*(ctx.guard[fr.g0:] + [e.cond])), e.kind, e.value, e.st))
        if not outs:
            alive = False
            break
        c, it.st = merge_outs(it, outs)
        if c is not True:
            ctx.guard.append(c)
    rel = b_and(*ctx.guard[g:])
    del ctx.guard[g:]
    outs = [(rel, it.st)] if alive else []
    if s.orelse:
        if breaks:
            raise Unsupported("for/else with break")
        if not alive:
            return False
        if rel is not True:
            ctx.guard.append(rel)
        return it.exec_block(s.orelse)
    outs = breaks + outs
    if not outs:
        return False
    c, it.st = merge_outs(it, outs)
    c = simp(c)
    if c is not True:
        ctx.guard.append(c)
    return True


def simp(c):
    if isinstance(c, bool):
        return c
    x = z3.simplify(c)
    return True if z3.is_true(x) else False if z3.is_false(x) else c


# ------------------------------------------------------------------ helpers on values
def value_decls(v, acc=None):
    """names of the uninterpreted symbols a value depends on"""
    acc = set() if acc is None else acc
    if is_sym(v):
        decl_names(v, acc)
    elif isinstance(v, XR):
        for x in (v.p, v.n, v.v):
            value_decls(x, acc)
    elif isinstance(v, tuple):
        for x in v:
            value_decls(x, acc)
    elif isinstance(v, IteV):
        value_decls(v.c, acc)
        value_decls(v.a, acc)
        value_decls(v.b, acc)
    elif isinstance(v, StrV):
        for p in v.parts:
            if not isinstance(p, str):
                value_decls(p, acc)
    elif isinstance(v, Frozen):
        content_decls(v.content, acc)
    elif hasattr(v, 'decls'):
        v.decls(acc)
    return acc


PROBE = [z3.Const('probe?%d' % i, I) for i in range(4)]


def content_decls(c, acc=None):
    acc = set() if acc is None else acc
    if isinstance(c, Lit):
        for x in c.items:
            value_decls(x, acc)
    elif isinstance(c, Concat):
        content_decls(c.a, acc)
        content_decls(c.b, acc)
    elif isinstance(c, IteSeq):
        value_decls(c.c, acc)
        content_decls(c.a, acc)
        content_decls(c.b, acc)
    elif isinstance(c, Filter):
        value_decls(c.n, acc)
        value_decls(c.cond(PROBE[0]), acc)
        value_decls(c.val(PROBE[0]), acc)
    elif isinstance(c, Flat):
        value_decls(c.outer_n, acc)
        content_decls(c.inner(PROBE[1]), acc)
    elif isinstance(c, Perm):
        content_decls(c.base, acc)
        value_decls(c.sig(PROBE[0]), acc)
    elif isinstance(c, Seq):
        value_decls(c.n, acc)
        try:
            value_decls(c.at(PROBE[0]), acc)
        except Unsupported:
            pass
    elif isinstance(c, Nd):
        for d in c.shape:
            value_decls(d, acc)
        value_decls(c.f(*PROBE[:c.ndim]), acc)
    elif isinstance(c, DLit):
        for q, x in c.items.items():
            value_decls(q, acc)
            value_decls(x, acc)
    elif isinstance(c, DStore):
        content_decls(c.base, acc)
        value_decls(c.key, acc)
        value_decls(c.v, acc)
    elif isinstance(c, DIte):
        value_decls(c.c, acc)
        content_decls(c.a, acc)
        content_decls(c.b, acc)
    elif isinstance(c, DPop):
        content_decls(c.base, acc)
        value_decls(c.key, acc)
    elif isinstance(c, Dct):
        q = getattr(c, 'key_probe', None)
        if q is None:
            q = PROBE[0]
        value_decls(c.has(q), acc)
        try:
            value_decls(c.get(q), acc)
        except Unsupported:
            pass
        if c.keys is not None:
            content_decls(c.keys, acc)
    elif isinstance(c, SetC):
        value_decls(c.mem(PROBE[0]), acc)
    elif hasattr(c, 'decls'):
        c.decls(acc)
    elif isinstance(c, ObjC):
        for x in c.fields.values():
            value_decls(x, acc)
    else:
        raise Unsupported("dependencies of %s" % type(c).__name__)
    return acc


def val_same(a, b):
    """structural identity of two values (used to check that an effect is stable)"""
    if a is b:
        return True
    if is_sym(a) and is_sym(b):
        return a.eq(b) or z3.simplify(a).eq(z3.simplify(b))
    if is_sym(a) or is_sym(b):
        return False
    if isinstance(a, XR) and isinstance(b, XR):
        return val_same(a.p, b.p) and val_same(a.n, b.n) and val_same(a.v, b.v)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(val_same(x, y) for x, y in zip(a, b))
    if isinstance(a, IteV) and isinstance(b, IteV):
        return val_same(a.c, b.c) and val_same(a.a, b.a) and val_same(a.b, b.b)
    if isinstance(a, StrV) and isinstance(b, StrV):
        return len(a.parts) == len(b.parts) and all(val_same(x, y) for x, y in zip(a.parts, b.parts))
    if isinstance(a, Frozen) and isinstance(b, Frozen):
        return content_same(a.content, b.content)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return True
    if type(a) is type(b) and isinstance(a, (bool, int, Fraction, str, type(None))):
        return a == b
    m = getattr(a, 'same_as', None)
    if m is not None:
        return m(b)
    return False


def content_same(a, b):
    if a is b:
        return True
    if isinstance(a, Lit) and isinstance(b, Lit):
        return a.n == b.n and all(val_same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, Concat) and isinstance(b, Concat):
        return content_same(a.a, b.a) and content_same(a.b, b.b)
    if isinstance(a, IteSeq) and isinstance(b, IteSeq):
        return val_same(a.c, b.c) and content_same(a.a, b.a) and content_same(a.b, b.b)
    if isinstance(a, Seq) and isinstance(b, Seq):
        try:
            return val_same(a.n, b.n) and val_same(a.at(PROBE[2]), b.at(PROBE[2]))
        except Unsupported:
            return isinstance(a, Lit) == isinstance(b, Lit) and val_same(a.n, b.n)
    if isinstance(a, Nd) and isinstance(b, Nd):
        return len(a.shape) == len(b.shape) and all(val_same(x, y) for x, y in zip(a.shape, b.shape)) and \
            val_same(a.f(*PROBE[:a.ndim]), b.f(*PROBE[:b.ndim]))
    if isinstance(a, DLit) and isinstance(b, DLit):
        return list(a.items) == list(b.items) and all(val_same(x, b.items[q]) for q, x in a.items.items())
    if isinstance(a, Dct) and isinstance(b, Dct):
        q = getattr(a, 'key_probe', PROBE[2])
        try:
            return val_same(a.has(q), b.has(q)) and val_same(a.get(q), b.get(q))
        except Unsupported:
            return False
    if isinstance(a, SetC) and isinstance(b, SetC):
        return val_same(a.mem(PROBE[2]), b.mem(PROBE[2]))
    m = getattr(a, 'same_as', None)
    if m is not None:
        return m(b)
    return False


def mentions(v, names):
    return bool(names & value_decls(v))


# ------------------------------------------------------------------ scalar effects
class Eff:
    """effect of one iteration on a scalar cell"""

    def __init__(self, kind, **kw):
        self.kind = kind
        self.__dict__.update(kw)

    KEYS = {'id': (), 'set': ('v',), 'add': ('e',), 'or': ('e',), 'and': ('e',), 'max': ('c', 'e'),
            'min': ('c', 'e'), 'once': ('c', 'e'), 'cset': ('c', 'v'), 'rec': ('v',)}

    def same(self, o):
        return self.kind == o.kind and all(val_same(getattr(self, q), getattr(o, q)) for q in self.KEYS[self.kind])

    def values(self):
        return [getattr(self, q) for q in self.KEYS[self.kind] if self.kind != 'rec']


def zero_of(t):
    return 0 if not is_realv(t) else Fraction(0)


def delta(t, in_):
    """t = in_ + delta; None if not of that form"""
    if t.eq(in_):
        return zero_of(t)
    if not z3.is_app(t):
        return None
    kd = t.decl().kind()
    if kd == z3.Z3_OP_ADD:
        ch = t.children()
        hit = [i for i, c in enumerate(ch) if occurs(in_, c)]
        if len(hit) != 1:
            return None
        d = delta(ch[hit[0]], in_)
        if d is None:
            return None
        for i, c in enumerate(ch):
            if i != hit[0]:
                d = arith('+', d, c)
        return d
    if kd == z3.Z3_OP_SUB:
        ch = t.children()
        if not occurs(in_, ch[0]) or any(occurs(in_, c) for c in ch[1:]):
            return None
        d = delta(ch[0], in_)
        if d is None:
            return None
        for c in ch[1:]:
            d = arith('-', d, c)
        return d
    if kd == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if occurs(in_, c):
            return None
        da, db = delta(a, in_), delta(b, in_)
        if da is None or db is None:
            return None
        return ite(c, da, db)
    if kd == z3.Z3_OP_TO_REAL and t.arg(0).sort() == I:
        return None
    return None


def cset_tree(t, in_):
    """(cond, value): t = value if cond else in_"""
    if t.eq(in_):
        return False, None
    if not occurs(in_, t):
        return True, t
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = t.children()
        if occurs(in_, c):
            return None
        ra, rb = cset_tree(a, in_), cset_tree(b, in_)
        if ra is None or rb is None:
            return None
        cond = b_ite(c, ra[0], rb[0])
        if ra[0] is False:
            v = rb[1]
        elif rb[0] is False:
            v = ra[1]
        else:
            v = ite(c, ra[1], rb[1])
        return cond, v
    return None


def scalar_effect(ctx, in_, out, names):
    """in_: placeholder (z3 const/app or XR), out: value after the iteration"""
    if out is in_ or val_same(out, in_):
        return Eff('id')
    if not mentions(out, names):
        return Eff('set', v=out)
    if isinstance(in_, XR) or isinstance(out, XR):
        return xr_effect(ctx, in_, out, names) or Eff('rec', v=out)
    if not is_sym(in_) or not is_sym(out):
        if isinstance(out, IteV) or isinstance(out, (tuple, Frozen)):
            r = value_cset(out, in_, names)
            if r is not None:
                return Eff('cset', c=r[0], v=r[1])
        return Eff('rec', v=out)
    if in_.sort() == B:
        c1 = simp(z3.simplify(z3.substitute(out, (in_, z3.BoolVal(True)))))
        c0 = simp(z3.simplify(z3.substitute(out, (in_, z3.BoolVal(False)))))
        ok1, ok0 = not mentions(c1, names), not mentions(c0, names)
        if c1 is True and ok0:
            return Eff('or', e=c0)
        if c0 is False and ok1:
            return Eff('and', e=c1)
        r = cset_tree(out, in_)
        if r is not None and not mentions(r[0], names) and not mentions(r[1], names):
            return Eff('cset', c=r[0], v=r[1])
        return Eff('rec', v=out)
    if out.sort() != in_.sort():
        return Eff('sort', want=out.sort())
    d = delta(out, in_)
    if d is None and out.sort() in (I, RS):
        d = delta(z3.simplify(out), in_)
    if d is not None and not mentions(d, names):
        return Eff('add', e=d)
    r = cset_tree(out, in_)
    if r is not None and not mentions(r[0], names) and not mentions(r[1], names):
        return Eff('cset', c=r[0], v=r[1])
    mm = minmax_effect(ctx, in_, out, names)
    if mm is not None:
        return mm
    return Eff('rec', v=out)


def value_cset(out, in_, names):
    """(cond, value) for lazily merged values"""
    if out is in_:
        return False, None
    if not mentions(out, names):
        return True, out
    if isinstance(out, IteV):
        if mentions(out.c, names):
            return None
        a, b = value_cset(out.a, in_, names), value_cset(out.b, in_, names)
        if a is None or b is None:
            return None
        v = b[1] if a[0] is False else a[1] if b[0] is False else ite(out.c, a[1], b[1])
        return b_ite(out.c, a[0], b[0]), v
    return None


def minmax_effect(ctx, in_, out, names):
    """out = If(g and e > in_, e, in_) and variants"""
    if not (z3.is_app(out) and out.decl().kind() == z3.Z3_OP_ITE):
        return None
    c, a, b = out.children()
    if b.eq(in_) and not mentions(a, names):
        e, cond = a, c
    elif a.eq(in_) and not mentions(b, names):
        e, cond = b, b_not(c)
    elif (a.eq(in_) or b.eq(in_)) and not mentions(c, names):
        inner = minmax_effect(ctx, in_, b if a.eq(in_) else a, names)
        if inner is None:
            return None
        g = c if b.eq(in_) else b_not(c)
        return Eff(inner.kind, c=b_and(g, inner.c), e=inner.e)
    else:
        return None
    conj = flat_and(cond)
    g = b_and(*[x for x in conj if not mentions(x, names)])
    rest = b_and(*[x for x in conj if mentions(x, names)])
    for kind, ops in (('max', ('>', '>=')), ('min', ('<', '<='))):
        for op in ops:
            if ctx.prove_pure(b_implies(g, T(rest) == T(cmp_(op, e, in_)))):
                return Eff(kind, c=g, e=e)
    return None


def flat_and(c):
    if is_sym(c) and z3.is_and(c):
        return [y for x in c.children() for y in flat_and(x)]
    return [c]


def xr_effect(ctx, in_, out, names):
    """min/max fold or conditional overwrite of an extended real"""
    i, o = xr(in_), xr(out)
    # condition under which the value part is replaced
    ov = o.v
    if not is_sym(ov) or not is_sym(i.v):
        return None
    if z3.is_app(ov) and ov.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = ov.children()
        if b.eq(i.v) and not mentions(a, names):
            e, cond = a, c
        elif a.eq(i.v) and not mentions(b, names):
            e, cond = b, b_not(c)
        else:
            return None
    else:
        return None
    # the new value is finite: p and n become false under cond
    ok = b_and(T(o.p) == T(b_and(b_not(cond), i.p)), T(o.n) == T(b_and(b_not(cond), i.n)))
    if not ctx.prove_pure(b_implies(b_not(b_and(i.p, i.n)), ok)):
        # overwritten by a value that may be infinite
        new = []
        for u, w in ((o.p, i.p), (o.n, i.n)):
            x = simp(z3.simplify(z3.substitute(T(u), *[(y, z3.BoolVal(False)) for y in (i.p, i.n) if is_sym(y)] or [(z3.BoolVal(True), z3.BoolVal(True))])))
            if mentions(x, names) or not ctx.prove_pure(T(u) == T(b_ite(cond, x, w))):
                return None
            new.append(x)
        return None if mentions(cond, names) else Eff('cset', c=cond, v=XR(new[0], new[1], e))
    if not mentions(cond, names):
        return Eff('cset', c=cond, v=e)
    conj = flat_and(cond)
    g = b_and(*[x for x in conj if not mentions(x, names)])
    wf = b_and(g, b_not(b_and(i.p, i.n)))
    for kind, ops in (('max', ('>', '>=')), ('min', ('<', '<='))):
        for op in ops:
            if ctx.prove_pure(b_implies(wf, T(cond) == T(cmp_(op, e, i)))):
                return Eff(kind, c=g, e=e)
    return None


def mm_value(ctx, kind, k, cond, val):
    """(exists, value) of the extremum of val(j) over j < k with cond(j)"""
    if cond(PROBE[3]) is True:
        return cmp_('<', 0, k), ctx.minmax(kind, k, val)
    return ctx.exists(k, cond), ctx.minmax(kind, k, val, cond)


# ------------------------------------------------------------------ the loop
class Loc:
    """a modified location: ('env', name) | ('heap', ref id) | ('field', ref id, name)"""

    def __init__(self, key, init):
        self.key, self.init = key, init
        self.ph = None            # placeholder value (or content for heap locations)
        self.names = set()
        self.eff = None
        self.closed = None        # fn(k term) -> value / content
        self.real = False
        self.reref = None         # fresh Ref when a variable holds a container
        self.content = False      # the location is a container content


class SymLoop:
    def __init__(self, it, s, seq):
        self.it, self.s, self.seq = it, s, seq
        self.ctx = it.ctx
        self.test = s.test if seq is None else None
        self.locs = {}

    # ---- state access
    def read(self, st, key):
        if key[0] == 'env':
            return st.env.get(key[1], UNDEF)
        if key[0] == 'heap':
            return st.heap[key[1]]
        return st.heap[key[1]].fields.get(key[2], UNDEF)

    def write(self, st, key, v):
        if key[0] == 'env':
            st.env[key[1]] = v
        elif key[0] == 'heap':
            st.heap[key[1]] = v
        else:
            st.heap[key[1]] = st.heap[key[1]].with_(key[2], v)

    def changed(self, a, b):
        """locations whose value differs between states a (before) and b (after)"""
        out = []
        for x, v in b.env.items():
            w = a.env.get(x, UNDEF)
            if w is not v and not val_same(w, v):
                out.append(('env', x))
        for i, c in a.heap.items():
            d = b.heap.get(i)
            if d is c:
                continue
            if isinstance(c, ObjC) and isinstance(d, ObjC):
                for f in list(d.fields) + [f for f in c.fields if f not in d.fields]:
                    if d.fields.get(f, UNDEF) is not c.fields.get(f, UNDEF) and \
                            not val_same(d.fields.get(f, UNDEF), c.fields.get(f, UNDEF)):
                        out.append(('field', i, f))
            elif not (isinstance(c, (Seq, Nd, Dct, SetC)) and content_same(c, d)):
                out.append(('heap', i))
        return out

    # ---- placeholders
    def clone(self, v, name, args=(), real=False):
        """unknown value of the same shape"""
        ctx = self.ctx
        srt = [a.sort() for a in args]

        def fr(sort):
            f = ctx.fresh_fn(name, srt, sort)
            self.cur_names.add(f(*args).decl().name())
            return f(*args)
        if is_boolv(v):
            return fr(B)
        if isinstance(v, XR):
            p, q = fr(B), fr(B)
            if not args:
                self.ctx.assume(z3.Not(z3.And(p, q)))
            return XR(p, q, fr(RS))
        if is_numlike(v):
            return fr(RS if real or is_realv(v) else I)
        if isinstance(v, tuple):
            return tuple(self.clone(x, name, args) for x in v)
        if isinstance(v, Frozen):
            return Frozen(self.clone_content(v.content, name, args), None, v.kind)
        m = getattr(v, 'clone_value', None)
        if m is not None:
            return m(self, name, args)
        return Opaque('loop value of ' + name)

    def clone_content(self, c, name, args=()):
        ctx = self.ctx
        if isinstance(c, Nd):
            q = [z3.Const('q?%d' % core.uid_fixed(), I) for _ in c.shape]
            e = self.clone(c.f(*q), name, tuple(args) + tuple(q))
            return NdIn(name, c, lambda *idx: vsubst(e, [(a, IT(b)) for a, b in zip(q, idx)]))
        if isinstance(c, DLit) and c.items and all(not is_symv(x) for x in c.items):
            return DLit({x: self.clone(v, name, args) for x, v in c.items.items()})
        if isinstance(c, Dct):
            return self.clone_nested(c, name, args)
        if isinstance(c, SetC):
            q = z3.Const('q?%d' % core.uid_fixed(), I)
            e = self.clone(True, name, tuple(args) + (q,))
            return SetC(lambda x: vsubst(e, [(q, IT(x))]))
        if isinstance(c, Seq):
            srt = [a.sort() for a in args]
            nf = ctx.fresh_fn(name + '_len', srt, I)
            n = nf(*args)
            self.cur_names.add(n.decl().name())
            if not args:
                ctx.assume(n >= 0)
            else:
                pass
            sample = None
            q = z3.Const('q?%d' % core.uid_fixed(), I)
            try:
                sample = c.at(q)
            except Unsupported:
                pass
            if sample is None:
                def at(i):
                    raise Unsupported("element of a list whose element type is unknown")
            else:
                e = self.clone(sample, name, tuple(args) + (q,))

                def at(i):
                    return vsubst(e, [(q, IT(i))])
            return InSeq(name, n, at, c)
        m = getattr(c, 'clone_content', None)
        if m is not None:
            return m(self, name, args)
        return OpaqueC(name)

    def clone_nested(self, c, name, args):
        """dictionary inside another container, integer keys"""
        q = z3.Const('q?%d' % core.uid_fixed(), I)
        if isinstance(c, DLit) and not c.items:
            raise Unsupported("loop dictionary")
        has = self.clone(True, name + '_has', tuple(args) + (q,))
        e = self.clone(c.get(q), name, tuple(args) + (q,))

        def key(x):
            if not is_numlike(x):
                raise Unsupported("loop dictionary key")
            return IT(x)
        return Dct(lambda x: vsubst(has, [(q, key(x))]), lambda x: vsubst(e, [(q, key(x))]))

    def clone_loc(self, c, name, loc):
        """a short list of numbers whose length the loop does not change: one unknown per element"""
        if isinstance(c, Lit) and 0 < len(c.items) <= 8 and not getattr(loc, 'nolit', False) and \
                all(is_numlike(v) and not isinstance(v, XR) for v in c.items):
            real = getattr(loc, 'real_items', set())
            return Lit([self.clone(v, '%s_%d' % (name, x), (), x in real) for x, v in enumerate(c.items)])
        return self.clone_content(c, name)

    def make_placeholder(self, loc):
        self.cur_names = set()
        key = loc.key
        name = 'in_' + str(key[-1])
        v = loc.init
        if key[0] == 'heap' and not is_numlike(v):
            loc.content = True
            loc.ph = self.clone_loc(v, name, loc) if not isinstance(v, Dct) or (isinstance(v, DLit) and v.items) \
                else self.clone_dict(v, name, loc)
        elif isinstance(v, Ref) and v.kind in ('list', 'nd', 'dict', 'set'):
            loc.content = True
            loc.reref = Ref(v.kind, v.cls)
            c = self.entry.heap[v.id]
            loc.init = c
            loc.init_ref = v
            loc.ph = self.clone_loc(c, name, loc) if not isinstance(c, Dct) or (isinstance(c, DLit) and c.items) \
                else self.clone_dict(c, name, loc)
        else:
            loc.ph = self.clone(v, name, (), loc.real)
        loc.names = set(self.cur_names)

    def clone_dict(self, c, name, loc):
        sv = getattr(loc, 'dict_sample', None)
        if isinstance(c, DLit) and not c.items:
            pass
        elif sv is None:
            q = PROBE[0]
            try:
                sv = (q, c.get(q))
            except Unsupported:
                sv = None
        if sv is None:
            loc.need_sample = True
            hf = self.ctx.fresh_fn(name + '_has', [I], B)
            self.cur_names.add(hf(PROBE[0]).decl().name())

            def noget(x):
                return Opaque('loop dictionary value')

            def nohas(x):
                if is_numlike(x):
                    return hf(IT(x))
                raise Unsupported("loop dictionary key")
            return DIn(name, c, nohas, noget)
        key, val = sv
        flat = flat_key(key)
        q = [z3.Const('q?%d' % core.uid_fixed(), x.sort() if is_sym(x) else I) for x in flat]
        has = self.clone(True, name + '_has', tuple(q))
        e = self.clone(val, name, tuple(q))
        d = DIn(name, c, lambda x: vsubst(has, list(zip(q, [T(y) for y in flat_key(x)]))),
                lambda x: vsubst(e, list(zip(q, [T(y) for y in flat_key(x)]))))
        d.key_probe = key_like(key, q)
        return d

    # ---- effects
    def out_value(self, loc, st):
        v = self.read(st, loc.key)
        if loc.content and loc.key[0] != 'heap':
            if isinstance(v, Ref) and v.id == loc.reref.id:
                if st.heap[v.id] is not self.sin.heap[v.id]:
                    return self.it_content(st, v)
                return st.heap[v.id]
            return self.it_content(st, v)
        if isinstance(v, (Ref, tuple, IteV)) or isinstance(v, Frozen):
            return self.freeze_in(st, v)
        return v

    def it_content(self, st, v):
        cur = self.it.st
        self.it.st = st
        try:
            return self.it.freeze_content(self.it.content(v))
        finally:
            self.it.st = cur

    def freeze_in(self, st, v):
        cur = self.it.st
        self.it.st = st
        try:
            return self.it.freeze(v)
        finally:
            self.it.st = cur

    def freeze_out(self, st, c):
        cur = self.it.st
        self.it.st = st
        try:
            return self.it.freeze_content(c)
        finally:
            self.it.st = cur

    def effect(self, loc, st):
        out = self.out_value(loc, st)
        if loc.content:
            out = self.freeze_out(st, out)
            return self.content_effect(loc, out)
        if loc.init is UNDEF:
            return Eff('local', v=out)
        if isinstance(loc.ph, Opaque):
            if out is loc.ph:
                return Eff('id')
            r = value_cset2(out, loc.ph)
            if r is None:
                return Eff('rec', v=out)
            if r[0] is True:
                return Eff('set', v=r[1])
            return Eff('cset', c=r[0], v=r[1])
        e = scalar_effect(self.ctx, loc.ph, out, loc.names)
        return e

    def content_effect(self, loc, out):
        In = loc.ph
        if out is In or content_same(out, In):
            return Eff('id')
        if not (loc.names & content_decls(out)):
            return Eff('set', v=Frozen(out))
        if isinstance(In, Lit):
            if isinstance(out, Lit) and len(out.items) == len(In.items) and all(is_numlike(v) for v in out.items):
                effs = {x: scalar_effect(self.ctx, In.items[x], v, loc.names) for x, v in enumerate(out.items)}
                srt = {x for x, e in effs.items() if e.kind == 'sort'}
                if srt:
                    loc.real_items = getattr(loc, 'real_items', set()) | srt
                    return Eff('sample')
                if all(e.kind not in ('rec', 'cset') for e in effs.values()):
                    return CEff('llit', effs=effs)
            loc.nolit = True
            return Eff('sample')
        if isinstance(In, DLit) and isinstance(out, DLit) and set(In.items) == set(out.items):
            effs = {x: scalar_effect(self.ctx, In.items[x], out.items[x], loc.names) for x in In.items}
            return CEff('dlit', effs=effs)
        if isinstance(In, Seq):
            t = tail(out, In)
            if t is not None and not (loc.names & content_decls(t)):
                return CEff('append', t=t)
            if isinstance(out, Seq) and same_len(out, In):
                e = self.nested_effect(loc, out, In)
                if e is not None:
                    return e
                q = self.q1
                return self.cell_effect(loc, cell_tree(out, In, (q,)), In.at(q), (q,), out)
        if isinstance(In, Nd) and isinstance(out, Nd) and In.ndim == out.ndim:
            q = tuple(self.qs[:In.ndim])
            return self.cell_effect(loc, cell_tree(out, In, q), In.f(*q), q, out)
        if isinstance(In, Dct) and isinstance(out, Dct):
            return self.dict_effect(loc, In, out)
        if isinstance(In, SetC) and isinstance(out, SetC):
            q = self.q1
            e = scalar_effect(self.ctx, In.mem(q), out.mem(q), loc.names)
            if e.kind in ('or', 'and', 'add', 'cset', 'set'):
                return CEff('set_cells', q=(q,), eff=e)
        return Eff('rec', v=Frozen(out))

    def nested_effect(self, loc, out, In):
        """a list of vectors of numbers, updated entry by entry"""
        q = tuple(self.qs[:2])
        try:
            a, b = vector_of(In.at(q[0])), vector_of(out.at(q[0]))
        except Unsupported:
            return None
        if a is None or b is None:
            return None
        in_q = a[1](q[1])
        if not is_numlike(in_q) or not is_numlike(b[1](q[1])):
            return None
        if not val_same(a[0], b[0]) and not self.ctx.prove_pure(cmp_('==', a[0], b[0])):
            return None
        tree = nested_tree(out, In, q)
        if tree is None:
            return None
        tree = own_cell(tree, in_q, q)
        e = scalar_effect(self.ctx, in_q, build(tree, in_q), loc.names)
        if e.kind == 'sort':
            return e
        if e.kind == 'rec':
            e = self.once_effect(loc, tree, in_q, q) or e
        if e.kind == 'rec':
            return None
        return CEff('cells2', q=q, eff=e)

    def cell_effect(self, loc, tree, in_q, q, out):
        # scalar cells
        if tree is not None:
            tree = own_cell(tree, in_q, q)
            vals = leaves(tree)
            if all(is_numlike(v) for v in vals) and is_numlike(in_q):
                term = build(tree, in_q)
                e = scalar_effect(self.ctx, in_q, term, loc.names)
                if e.kind == 'sort':
                    return e
                if e.kind == 'rec':
                    e = self.once_effect(loc, tree, in_q, q) or e
                if e.kind != 'rec':
                    return CEff('cells', q=q, eff=e)
                return Eff('rec', v=Frozen(out))
            r = tree_cset(tree)
            if not mentions(r[0], loc.names) and not mentions(r[1], loc.names):
                return CEff('cells', q=q, eff=Eff('cset', c=r[0], v=r[1]) if r[0] is not True else Eff('set', v=r[1]))
        return Eff('rec', v=Frozen(out))

    def once_effect(self, loc, tree, in_q, q):
        """each cell is rewritten in one iteration only (the one its index names): out[q] = f(in[q])"""
        if isinstance(tree, str) or tree[0] != 'ite' or not is_sym(in_q):
            return None
        c, rest = tree[1], build(tree[3], in_q)
        if not (is_sym(rest) and rest.eq(in_q)) or mentions(c, loc.names) or self.solved_index(c, q) is None:
            return None
        v = build(tree[2], in_q)
        if isinstance(v, XR):
            return None
        hole = z3.Const('cell?in', in_q.sort())
        v = vsubst(v, [(in_q, hole)])
        if mentions(v, loc.names):
            return None
        return Eff('once', c=c, e=v)

    def dict_effect(self, loc, In, out):
        q = getattr(In, 'key_probe', None)
        st = first_store(out)
        if q is None:
            # learn the key and value shape from the first store
            if st is None:
                return Eff('rec', v=Frozen(out))
            key, v = st
            if isinstance(v, Opaque):
                return Eff('rec', v=Frozen(out))
            loc.dict_sample = (key, v)
            return Eff('sample')
        tree = cell_tree(out, In, (q,))
        if tree is None:
            return Eff('rec', v=Frozen(out))
        he = scalar_effect(self.ctx, In.has(q), out.has(q), loc.names)
        if he.kind not in ('or', 'id'):
            return Eff('rec', v=Frozen(out))
        vals = leaves(tree)
        in_q = In.get(q)
        if all(is_numlike(v) for v in vals) and is_numlike(in_q):
            term = build(tree, in_q)
            e = scalar_effect(self.ctx, in_q, term, loc.names)
            if e.kind == 'sort':
                return e
        else:
            r = tree_cset(tree)
            e = Eff('rec', v=None)
            if not mentions(r[0], loc.names) and not mentions(r[1], loc.names):
                e = Eff('cset', c=r[0], v=r[1])
        if e.kind == 'rec':
            return Eff('rec', v=Frozen(out))
        return CEff('dict', q=(q,), has=he, eff=e, order=store_order(out, In))

    # ---- closed forms
    def at_index(self, v, j):
        return vsubst(v, [(self.k, IT(j))])

    def close_scalar(self, e, init, k, key=(), extra=None):
        """value at the start of iteration k; key: cell symbols already substituted in e"""
        ctx = self.ctx

        def sub(v):
            return lambda j: vsubst(v, [(self.k, IT(j))] + (extra or []))
        if e.kind == 'id':
            return init
        if e.kind == 'set':
            v = sub(e.v)
            return ite(cmp_('<', 0, k), v(arith('-', k, 1)), init)
        if e.kind == 'add':
            fixed, rest = factor(e.e, self.k) if extra and is_sym(e.e) else ([], e.e)
            if fixed:
                return ite(simp(b_and(*[vsubst(x, extra) for x in fixed])), arith('+', init, ctx.sum(k, lambda j: num(sub(rest)(j)))), init)
            return arith('+', init, ctx.sum(k, lambda j: num(sub(e.e)(j))))
        if e.kind == 'or':
            return b_or(init, ctx.exists(k, sub(e.e)))
        if e.kind == 'and':
            return b_and(init, ctx.forall(k, sub(e.e)))
        if e.kind in ('max', 'min'):
            fixed, c = [], []
            for x in flat_and(e.c) if is_sym(e.c) else [e.c]:
                (fixed if is_sym(x) and not occurs(self.k, x) else c).append(x)
            fixed = b_and(*[vsubst(x, extra or []) for x in fixed])
            has, m = mm_value(ctx, e.kind, k, sub(b_and(*c)), sub(e.e))
            return ite(b_and(fixed, has), minmax2x(e.kind, init, m), init)
        raise Unsupported("closed form of %s" % e.kind)

    def solved_index(self, c, qs):
        """c(k, q) => k = expr(q): returns expr or None"""
        for x in flat_and(c):
            if is_sym(x) and z3.is_eq(x):
                a, b = x.children()
                for u, w in ((a, b), (b, a)):
                    if u.sort() != I or w.sort() != I:
                        continue
                    if w.eq(self.k) and not occurs(self.k, u):
                        return u
                    if occurs(self.k, w) and not occurs(self.k, u):
                        d = delta(z3.simplify(w), self.k)
                        if d is not None and not occurs(self.k, T(d)):
                            return IT(arith('-', u, d))
        return None

    def cond_conjs(self, c):
        return flat_and(c)

    def last_write(self, c, qs, tag):
        """witness function w(k, q..): last j < k with c(j, q), or -1; facts assumed in the outer scope"""
        ctx = self.ctx
        srt = [I] + [q.sort() for q in qs]
        ks = ctx.idx_consts()
        wf = z3.Function('lastw!f%d' % core.uid_fixed(), *([x.sort() for x in ks] + srt + [I]))

        def w(*a):
            return wf(*(list(ks) + list(a)))
        kk = z3.Const('k?f%d' % core.uid_fixed(), I)
        j = z3.Const('j?f%d' % core.uid_fixed(), I)
        qq = [z3.Const('q?f%d' % core.uid_fixed(), q.sort()) for q in qs]
        pairs = list(zip(qs, qq))

        def cj(x):
            return T(vsubst(c, [(self.k, IT(x))] + pairs))
        wk = w(kk, *qq)
        hi = self.hi
        rng = b_and(kk >= 0, kk <= hi) if hi is not None else kk >= 0
        ctx.assume(z3.ForAll([kk] + qq, z3.Implies(T(rng), z3.And(
            wk >= -1, wk < kk, z3.Implies(wk >= 0, cj(wk)))), patterns=[wk]))
        ctx.assume(z3.ForAll([kk, j] + qq, z3.Implies(z3.And(T(rng), j >= 0, j < kk, j > wk),
                                                      z3.Not(cj(j)))))
        return w

    def closer(self, loc):
        """fn(k) giving the closed form, or None"""
        e, init = loc.eff, loc.init
        ctx = self.ctx
        if e.kind == 'rec':
            return lambda k: vsubst(loc.ph, [(self.k, IT(k))]) if not loc.content else \
                csubst(loc.ph, [(self.k, IT(k))])
        if e.kind == 'id':
            return lambda k: init
        if e.kind == 'set' and loc.content:
            return lambda k: content_ite(cmp_('<', 0, k), csubst(e.v.content, [(self.k, IT(arith('-', k, 1)))]), init)
        if e.kind == 'cset' and not loc.content:
            w = self.last_write(e.c, (), loc.key)
            return lambda k: ite(cmp_('<=', 0, w(IT(k))), self.at_index(e.v, w(IT(k))), init)
        if not loc.content:
            return lambda k: self.close_scalar(e, init, k)
        if e.kind == 'append':
            return self.close_append(e.t, init)
        if e.kind == 'dlit':
            if any(x.kind in ('rec', 'cset', 'sort') for x in e.effs.values()):
                raise Unsupported("loop over a record dictionary")
            return lambda k: DLit({x: self.close_scalar(f, init.items[x], k) for x, f in e.effs.items()})
        if e.kind == 'llit':
            return lambda k: Lit([self.close_scalar(e.effs[x], v, k) for x, v in enumerate(init.items)])
        if e.kind == 'cells':
            f = self.close_cells(e, e.eff)
            if isinstance(init, Nd):
                def mk(k):
                    r = Nd(init.shape, lambda *q: f(k, q, lambda: init.f(*q)), init.dtype)
                    return r
                return mk

            def mk2(k):
                r = Fn(init.n, lambda q: f(k, (IT(q),), lambda: init.at(q)))
                return r
            return mk2
        if e.kind == 'cells2':
            f = self.close_cells(e, e.eff)
            dt = dtype_of(init)

            def mk4(k):
                def row(p):
                    n, g = vector_of(init.at(p))
                    return Frozen(Nd((n,), lambda j: f(k, (IT(p), IT(j)), lambda: g(j)), dt), None, 'nd')
                return Fn(init.n, row)
            return mk4
        if e.kind == 'set_cells':
            f = self.close_cells(e, e.eff)
            return lambda k: SetC(lambda q: f(k, (q,), lambda: init.mem(q)))
        if e.kind == 'dict':
            fh = self.close_cells(e, e.has)
            fg = self.close_cells(e, e.eff, partial=isinstance(init, DLit) and not init.items)

            def mk3(k):
                keys = None
                if e.order is not None and isinstance(init, DLit) and not init.items and \
                        self.fresh_keys(e.order):
                    keys = self.close_append(e.order, Lit(list(init.items)))(k)
                d = Dct(lambda x: fh(k, (x,), lambda: init.has(x)), lambda x: fg(k, (x,), lambda: init.get(x)), keys)
                d.key_probe = e.q[0]
                return d
            return mk3
        raise Unsupported("closed form of %s" % e.kind)

    def close_append(self, t, init):
        r = single(t)
        k0 = self.k
        if r is None:
            def mk(k):
                return mkconcat(init, Flat(self.ctx, IT(k), lambda j: csubst(t, [(k0, IT(j))])))
            return mk
        c, v = r
        if c is True:
            return lambda k: mkconcat(init, Fn(IT(k), lambda j: self.at_index(v, j)))

        def mk2(k):
            return mkconcat(init, mk_filter(self.ctx, IT(k), k0, c, v))
        return mk2

    def fresh_keys(self, t):
        """every iteration stores under a key of its own"""
        r = single(t)
        if r is None or r[0] is False:
            return False
        i, j = z3.Const('i?f%d' % core.uid_fixed(), I), z3.Const('j?f%d' % core.uid_fixed(), I)
        a, b = self.at_index(r[1], i), self.at_index(r[1], j)
        try:
            e = veq(a, b)
        except Unsupported:
            return False
        hi = self.hi
        f = b_implies(b_and(i >= 0, i < j, cmp_('<', j, hi) if hi is not None else True), b_not(e))
        return self.ctx.prove_pure(f) or self.ctx.prove_full(f)

    def close_cells(self, e, eff, partial=False):
        """fn(k, q values, init thunk) -> value of the cell at the start of iteration k"""
        qs = []
        for q in e.q:
            qs.extend(flat_key(q))

        def bind(q):
            vals = []
            for x in q:
                vals.extend(flat_key(x))
            return list(zip(qs, [T(x) for x in vals]))
        if eff.kind == 'id':
            return lambda k, q, init: init()
        if eff.kind in ('cset', 'or', 'add'):
            c = {'cset': lambda: eff.c, 'or': lambda: eff.e, 'add': lambda: add_cond(eff.e)}[eff.kind]()
            j = self.solved_index(c, qs) if c is not None else None
            if j is not None and eff.kind in ('cset', 'or', 'add'):
                def f(k, q, init):
                    pr = bind(q)
                    jj = z3.substitute(j, *pr)
                    ok = b_and(cmp_('<=', 0, jj), cmp_('<', jj, k), simp(vsubst(c, [(self.k, jj)] + pr)))
                    if eff.kind == 'or':
                        return b_or(init(), ok)
                    if eff.kind == 'add':
                        d = vsubst(eff.e, [(self.k, jj)] + pr)
                        return arith('+', init(), ite(ok, num(d), zero_of(d)))
                    v = vsubst(eff.v, [(self.k, jj)] + pr)
                    return v if partial else ite(ok, v, init())
                return f
        if eff.kind == 'once':
            j = self.solved_index(eff.c, qs)

            def f3(k, q, init):
                pr = bind(q)
                jj = z3.substitute(j, *pr)
                ok = b_and(cmp_('<=', 0, jj), cmp_('<', jj, k), simp(vsubst(eff.c, [(self.k, jj)] + pr)))
                return ite(ok, put_cell(vsubst(eff.e, [(self.k, jj)] + pr), init()), init())
            return f3
        if eff.kind == 'cset':
            w = self.last_write(eff.c, qs, 'cells')

            def f2(k, q, init):
                pr = bind(q)
                ww = w(IT(k), *[b for _, b in pr])
                v = vsubst(eff.v, [(self.k, ww)] + pr)
                return v if partial else ite(cmp_('<=', 0, ww), v, init())
            return f2
        if eff.kind in ('set', 'add', 'or', 'and', 'max', 'min'):
            return lambda k, q, init: self.close_scalar(eff, init(), k, (), bind(q))
        raise Unsupported("closed form of cells (%s)" % eff.kind)

    # ---- main
    def build_in(self):
        """state at the start of iteration k"""
        st = self.entry.copy()
        for loc in self.locs.values():
            if loc.init is UNDEF and loc.key[0] == 'env':
                st.env.pop(loc.key[1], None)
                continue
            v = loc.ph if loc.closed is None else loc.closed(self.k)
            self.put(st, loc, v)
        return st

    def put(self, st, loc, v):
        if loc.content and loc.key[0] != 'heap':
            st.heap[loc.reref.id] = v
            self.write(st, loc.key, loc.reref)
        else:
            self.write(st, loc.key, v)

    def one_pass(self, record, keep):
        """execute the body at index k; returns (outs cond, out state, exits)"""
        ctx, it = self.ctx, self.it
        uid_reset(self.mark)
        old = ctx.record
        ctx.record = old and record
        written = len(it.written)
        ctx.push(self.k, self.rng)
        try:
            for f in getattr(self, 'inst_facts', []):
                ctx.assume(f)
            keep_uid = uid_mark()
            apart = any(loc.eff is not None and loc.eff.kind == 'dict' for loc in self.locs.values())
            if apart:       # names made in the body must not depend on how the state before it is written
                uid_reset(10 ** 6 + 10 ** 4 * keep_uid)
            self.sin = self.build_in()
            if apart:
                uid_reset(keep_uid)
            it.st = self.sin.copy()
            if self.inv is not None:
                for nm, f in self.inv(self.sin, self.k):
                    ctx.assume(f)
            outs, exits = body_outcomes(it, self.s, (lambda: self.seq.at(self.k)) if self.seq is not None else None,
                                        self.test)
            if outs:
                c, st = merge_outs(it, outs)
            else:
                c, st = False, None
            if keep and self.inv is not None and st is not None:
                g = len(ctx.guard)
                if c is not True:
                    ctx.guard.append(c)
                for nm, f in self.inv(self.with_locs(st), self.k + 1):
                    ctx.oblige("loop invariant preserved: " + nm, f, assume_after=False)
                del ctx.guard[g:]
            if keep and st is not None:
                self.rec_facts(st, c)
        finally:
            ctx.record = old
            if not keep:
                ctx.scopes.pop()
                del it.written[written:]
            self.maxuid = max(self.maxuid, uid_mark())
        if keep:
            ctx.pop()
            if len(it.written) != written:
                raise Unsupported("output written inside a symbolic loop")
        return c, st, exits

    def with_locs(self, st):
        return st

    def rec_facts(self, st, c):
        """defining facts of locations without a closed form: v(k+1) = out(k)"""
        ctx = self.ctx
        for loc in self.locs.values():
            if loc.eff.kind != 'rec':
                continue
            out = self.out_value(loc, st)
            g = len(ctx.guard)
            if c is not True:
                ctx.guard.append(c)
            try:
                if not loc.content and is_numlike(loc.ph):
                    nxt = vsubst(loc.ph, [(self.k, self.k + 1)])
                    ctx.assume(eq_scalar(nxt, out))
                elif loc.content and isinstance(loc.ph, Seq) and isinstance(out, Seq):
                    nxt = csubst(loc.ph, [(self.k, self.k + 1)])
                    ctx.assume(cmp_('==', nxt.n, out.n))
                    q = self.q1
                    try:
                        a, b = nxt.at(q), out.at(q)
                    except Unsupported:
                        continue
                    if is_numlike(a) and is_numlike(b):
                        ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < IT(out.n)), T(eq_scalar(a, b)))))
                elif loc.content and isinstance(loc.ph, Nd) and isinstance(out, Nd):
                    nxt = csubst(loc.ph, [(self.k, self.k + 1)])
                    q = tuple(self.qs[:out.ndim])
                    a, b = nxt.f(*q), out.f(*q)
                    if is_numlike(a) and is_numlike(b):
                        ctx.assume(z3.ForAll(list(q), T(eq_scalar(a, b))))
            finally:
                del ctx.guard[g:]

    def run(self):
        it, ctx = self.it, self.ctx
        s = self.s
        self.entry = it.st.copy()
        g_len = len(ctx.guard)
        self.k = ctx.bound('k')
        self.qs = [z3.Const('q?%d' % core.uid_fixed(), I) for _ in range(4)]
        self.q1 = self.qs[0]
        self.n = None if self.seq is None else self.seq.n
        n = self.n
        if n is not None and is_sym(n) and not isinstance(self.seq, Rng) and not ctx.prove_quick(n >= 0, ms=300):
            pass
        self.K = ctx.fresh('K', I)
        self.hi = n
        self.rng = b_and(self.k >= 0, cmp_('<', self.k, n) if n is not None else True)
        self.inv = None
        self.maxuid = uid_mark()
        if it.loop_inv is not None:
            h = it.loop_inv(it, self)
            if h is not None:
                self.inv = h
        self.mark = uid_mark()
        # ---- phase A: which locations are modified
        for _ in range(12):
            self.alloc_placeholders()
            c, st, exits = self.one_pass(False, False)
            new = False
            for x in [st] + [e.st for e in exits if e.kind not in ('return', 'raise')]:
                if x is None:
                    continue
                for key in self.changed(self.sin, x):
                    if key not in self.locs and not self.is_reref(key):
                        init = self.read(self.entry, key)
                        self.locs[key] = Loc(key, init)
                        new = True
            if not new:
                break
        else:
            raise Unsupported("loop with too many modified locations")
        has_exit = [e for e in exits]
        if has_exit and n is not None:
            self.rng = b_and(self.k >= 0, cmp_('<', self.k, n), self.k <= self.K)
            self.hi = self.K
        if n is None:
            self.rng = b_and(self.k >= 0, self.k <= self.K)
            self.hi = self.K
        # ---- phase B: effects
        for rnd in range(14):
            c, st, exits = self.one_pass(False, False)
            stable, retry = True, False
            for loc in self.locs.values():
                e = self.effect(loc, st) if st is not None else Eff('rec', v=None)
                if e.kind == 'sort':
                    loc.real = True
                    loc.eff = None
                    loc.closed = None
                    retry = True
                    continue
                if e.kind == 'sample':
                    loc.closed = None
                    loc.eff = None
                    retry = True
                    continue
                old = loc.eff
                if getattr(loc, 'pinned', False):
                    loc.eff = Eff('rec', v=None)
                    continue
                if loc.closed is not None:
                    # closed form in place: compare with the effect seen through it
                    if not self.same_through(loc, st):
                        loc.closed = None
                        loc.eff = None
                        loc.fails = getattr(loc, 'fails', 0) + 1
                        stable = False
                    continue
                loc.eff = e
                if old is None or old.kind != e.kind:
                    stable = False
            if any(loc.eff is None for loc in self.locs.values()) and not retry:
                continue
            if retry:
                for loc in self.locs.values():
                    loc.closed = None
                    if not getattr(loc, 'pinned', False):
                        loc.eff = None
                self.alloc_placeholders(force=True)
                continue
            # resolve every location whose effect mentions no open placeholder
            open_names = set()
            for loc in self.locs.values():
                if loc.closed is None and loc.eff.kind != 'rec':
                    open_names |= loc.names
            progressed = False
            for loc in self.locs.values():
                if loc.closed is None and loc.eff.kind not in ('rec', 'local'):
                    if getattr(loc, 'fails', 0) > 3:
                        loc.eff = Eff('rec', v=None)
                        loc.pinned = True
                        stable = False
                        continue
                    if not (eff_decls(loc.eff) & (open_names - loc.names)) and \
                            not (eff_decls(loc.eff) & loc.names):
                        loc.pending = True
                        progressed = True
            if progressed:
                for loc in self.locs.values():
                    if getattr(loc, 'pending', False):
                        loc.pending = False
                        try:
                            loc.closed = self.closer_lazy(loc)
                        except Unsupported:
                            loc.eff = Eff('rec', v=None)
                            loc.pinned = True
                continue
            left = [loc for loc in self.locs.values() if loc.closed is None and loc.eff.kind not in ('rec', 'local')]
            if left:
                # mutually dependent effects: leave one of them uninterpreted
                left[0].eff = Eff('rec', v=None)
                left[0].fixed_rec = True
                self.pin_rec(left[0])
                continue
            if stable:
                break
        else:
            raise Unsupported("loop effects do not stabilise")
        return self.finish()

    def pin_rec(self, loc):
        loc.pinned = True

    def is_reref(self, key):
        return key[0] == 'heap' and any(l.reref is not None and l.reref.id == key[1] for l in self.locs.values())

    def alloc_placeholders(self, force=False):
        ctx = self.ctx
        uid_reset(self.mark)
        if self.maxuid > self.mark:
            core._Uid.n = self.maxuid
        ctx.push(self.k, self.rng)
        try:
            for loc in self.locs.values():
                if loc.ph is None or (force and loc.closed is None and (loc.real or hasattr(loc, 'dict_sample') or
                                                                           hasattr(loc, 'nolit') or hasattr(loc, 'real_items'))):
                    if hasattr(loc, 'init_ref'):
                        loc.init = loc.init_ref
                    if loc.init is not UNDEF:
                        self.make_placeholder(loc)
                    else:
                        loc.ph = UNDEF
        finally:
            sc = ctx.scopes.pop()
        self.inst_facts = getattr(self, 'inst_facts', []) + sc.facts
        for f in sc.facts:
            kk = quant(self.k, self.k >= 0, f)
            ctx.assume(kk)
        self.mark = uid_mark()
        self.maxuid = max(self.maxuid, self.mark)

    def closer_lazy(self, loc):
        """closed form; witness facts are created once, in the outer scope"""
        return self.closer(loc)

    def same_through(self, loc, st):
        """the effect that was closed is still the effect of the body (checked with the closed form in place)"""
        e = loc.eff
        if e.kind in ('rec', 'local'):
            return True
        out = self.out_value(loc, st)
        if loc.content:
            out = self.freeze_out(st, out)
        if e.kind == 'append':
            t = tail(out, self.cur_content(loc))
            return t is not None and content_same(t, e.t)
        expect = self.apply_eff(loc, e)
        if expect is None:
            return False
        if loc.content:
            return content_same(out, expect) or self.content_equal(out, expect)
        if val_same(out, expect):
            return True
        if is_numlike(out) and is_numlike(expect):
            try:
                return self.ctx.prove_pure(eq_scalar(out, expect))
            except (Unsupported, z3.Z3Exception):
                return False
        return False

    def content_equal(self, a, b):
        try:
            if isinstance(a, Nd) and isinstance(b, Nd):
                q = self.qs[:a.ndim]
                x, y = a.f(*q), b.f(*q)
                return is_numlike(x) and is_numlike(y) and self.ctx.prove_pure(eq_scalar(x, y))
            if isinstance(a, Lit) and isinstance(b, Lit):
                return len(a.items) == len(b.items) and all(
                    val_same(x, y) or is_numlike(x) and is_numlike(y) and self.ctx.prove_pure(eq_scalar(x, y))
                    for x, y in zip(a.items, b.items))
            if isinstance(a, Seq) and isinstance(b, Seq):
                if not val_same(a.n, b.n) and not self.ctx.prove_pure(cmp_('==', a.n, b.n)):
                    return False
                x, y = a.at(self.q1), b.at(self.q1)
                if is_numlike(x) and is_numlike(y):
                    return self.ctx.prove_pure(eq_scalar(x, y))
                va, vb = vector_of(x), vector_of(y)
                if va is not None and vb is not None:
                    x, y = va[1](self.qs[1]), vb[1](self.qs[1])
                    return (val_same(va[0], vb[0]) or self.ctx.prove_pure(cmp_('==', va[0], vb[0]))) and is_numlike(x) and is_numlike(y) \
                        and (val_same(x, y) or self.ctx.prove_pure(eq_scalar(x, y)))
                return val_same(x, y)
            if isinstance(a, Dct) and isinstance(b, Dct):
                q = getattr(b, 'key_probe', getattr(a, 'key_probe', self.q1))
                x, y = a.get(q), b.get(q)
                if not self.ctx.prove_pure(T(a.has(q)) == T(b.has(q))):
                    return False
                if is_numlike(x) and is_numlike(y):
                    return self.ctx.prove_pure(eq_scalar(x, y))
                if isinstance(x, Frozen) and isinstance(y, Frozen) and type(x.content) is type(y.content) and \
                        hasattr(x.content, 'equal'):
                    return self.ctx.prove_pure(b_implies(a.has(q), x.content.equal(y.content)))
                return val_same(x, y)
            if isinstance(a, SetC) and isinstance(b, SetC):
                return self.ctx.prove_pure(T(a.mem(self.q1)) == T(b.mem(self.q1)))
        except (Unsupported, z3.Z3Exception):
            return False
        return False

    def cur_content(self, loc):
        return self.sin.heap[loc.reref.id] if loc.key[0] != 'heap' else self.sin.heap[loc.key[1]]

    def apply_eff(self, loc, e):
        """effect e applied to the closed form at k"""
        ctx = self.ctx
        ctx.push(self.k, self.rng)
        try:
            cur = self.out_value(loc, self.sin) if not loc.content else \
                (self.sin.heap[loc.reref.id] if loc.key[0] != 'heap' else self.sin.heap[loc.key[1]])
            if loc.content:
                if e.kind == 'set':
                    return e.v.content
                if e.kind == 'append':
                    return join_tail(cur, e.t)
                if e.kind == 'cells':
                    qs = e.q

                    def f(*q):
                        b = list(zip(qs, [IT(x) for x in q]))
                        c0 = cur.f(*q) if isinstance(cur, Nd) else cur.at(q[0])
                        return apply_scalar(sub_eff(e.eff, b), c0)
                    if isinstance(cur, Nd):
                        return Nd(cur.shape, f, cur.dtype)
                    return Fn(cur.n, f)
                if e.kind == 'cells2':
                    def row(p):
                        n, g = vector_of(cur.at(p))
                        return Frozen(Nd((n,), lambda j: apply_scalar(sub_eff(e.eff, list(zip(e.q, [IT(p), IT(j)]))), g(j)), dtype_of(cur)), None, 'nd')
                    return Fn(cur.n, row)
                if e.kind == 'dict':
                    def pr(x):
                        a = []
                        for q in e.q:
                            a.extend(flat_key(q))
                        return list(zip(a, [T(y) for y in flat_key(x)]))
                    d = Dct(lambda x: apply_scalar(sub_eff(e.has, pr(x)), cur.has(x)),
                            lambda x: apply_scalar(sub_eff(e.eff, pr(x)), cur.get(x)))
                    d.key_probe = e.q[0]
                    return d
                if e.kind == 'llit':
                    return Lit([apply_scalar(e.effs[x], v) for x, v in enumerate(cur.items)]) if isinstance(cur, Lit) else None
                if e.kind == 'dlit':
                    return DLit({x: apply_scalar(f, cur.items[x]) for x, f in e.effs.items()})
                if e.kind == 'set_cells':
                    return SetC(lambda x: apply_scalar(sub_eff(e.eff, [(e.q[0], IT(x))]), cur.mem(x)))
                if e.kind == 'id':
                    return cur
                return None
            return apply_scalar(e, cur)
        finally:
            ctx.scopes.pop()

    def finish(self):
        it, ctx = self.it, self.ctx
        n, K, k = self.n, self.K, self.k
        self.mark = max(self.mark, self.maxuid) if False else self.mark
        c, st, exits = self.one_pass(False, False)
        exits = [e for e in exits if simp(e.cond) is not False]
        stop = b_or(*[e.cond for e in exits])
        if exits or n is None:
            if n is not None:
                ctx.assume(b_and(K >= 0, z3.Implies(IT(n) >= 0, K <= IT(n)), z3.Implies(IT(n) < 0, K == 0)))
            else:
                ctx.assume(K >= 0)
            j = ctx.bound('j')
            if stop is not False:
                ctx.assume(quant(j, b_and(j >= 0, j < K), T(b_not(vsubst(stop, [(k, j)])))))
                at_k = T(vsubst(stop, [(k, K)]))
                ctx.assume(b_implies(cmp_('<', K, n), at_k) if n is not None else at_k)
            elif n is None:
                ctx.assume(False)
        # defining facts of uninterpreted locations at 0
        for loc in self.locs.values():
            if loc.eff.kind == 'rec':
                self.init_facts(loc)
        if self.inv is not None:
            for nm, f in self.inv(self.entry, z3.IntVal(0)):
                ctx.oblige("loop invariant initially: " + nm, f, assume_after=False)
        # final pass
        c, st, exits = self.one_pass(True, True)
        exits = [e for e in exits if simp(e.cond) is not False]
        for loc in self.locs.values():
            if loc.closed is not None and not self.same_through(loc, st):
                raise Unsupported("loop effect of %s changed in the final pass" % (loc.key,))
        core._Uid.n = max(self.maxuid, uid_mark())
        end = IT(n) if n is not None else K
        if n is not None and not exits:
            # a negative length means no iteration
            end = IT(n)
            if is_sym(n) and not (z3.is_app(n) and n.decl().name() in ctx.sumdefs) \
                    and not ctx.prove_quick(n >= 0, ms=300):
                end = z3.If(n >= 0, n, z3.IntVal(0))
        endk = K if (exits or n is None) else end
        # state after normal termination / at a break whose locations are unchanged
        fr = it.frames[-1]
        base = self.entry.copy()
        for loc in self.locs.values():
            self.set_final(base, loc, endk, st)
        if self.inv is not None:
            for nm, f in self.inv(base, endk):
                ctx.assume(f)
        outs = []
        rest = []
        for e in exits:
            cond = vsubst(e.cond, [(k, K)])
            cc = b_and(cmp_('<', K, n), cond) if n is not None else cond
            if e.kind in ('break', 'done'):
                outs.append((cc, self.exit_state(e, base)))
            else:
                rest.append((cc, e))
        for cc, e in rest:
            v = vsubst(self.freeze_in(e.st, e.value), [(k, K)]) if not isinstance(e.value, Ref) or \
                e.value.id not in self.entry.heap else e.value
            fr.exits.append(Exit(b_and(*(ctx.guard[fr.g0:] + [cc])), e.kind, v, self.exit_state(e, base)))
        if n is None:
            if not outs:
                return False
            cc, it.st = merge_outs(it, outs)
            if rest:
                ctx.guard.append(cc)
            return self.orelse(True)
        nc = cmp_('>=', K, end) if exits else True
        allouts = outs + [(nc, base)]
        if exits and outs:
            cc, it.st = merge_outs(it, allouts)
        else:
            it.st = base
        if rest:
            ctx.guard.append(b_or(*[q for q, _ in allouts]))
        if self.s.orelse:
            if outs:
                raise Unsupported("for/else with break")
            return it.exec_block(self.s.orelse)
        return True

    def orelse(self, alive):
        if self.s.orelse:
            raise Unsupported("while/else")
        return alive

    def init_facts(self, loc):
        ctx = self.ctx
        z = [(self.k, z3.IntVal(0))]
        if not loc.content:
            if is_numlike(loc.ph) and is_numlike(loc.init):
                ctx.assume(eq_scalar(vsubst(loc.ph, z), loc.init))
                if loc.key == ('heap', 'clock'):
                    kk = ctx.bound('k')
                    ctx.assume(z3.ForAll([kk], z3.Implies(kk >= 0, T(cmp_('>=', vsubst(loc.ph, [(self.k, kk)]),
                                                                          loc.init)))))
            return
        ph = csubst(loc.ph, z)
        if isinstance(ph, Seq):
            ctx.assume(cmp_('==', ph.n, loc.init.n))
            q = self.q1
            try:
                a, b = ph.at(q), loc.init.at(q)
            except Unsupported:
                return
            if is_numlike(a) and is_numlike(b):
                ctx.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < IT(loc.init.n)), T(eq_scalar(a, b)))))
        elif isinstance(ph, Nd):
            q = self.qs[:ph.ndim]
            a, b = ph.f(*q), loc.init.f(*q)
            if is_numlike(a) and is_numlike(b):
                ctx.assume(z3.ForAll(list(q), T(eq_scalar(a, b))))

    def set_final(self, base, loc, endk, st):
        ctx = self.ctx
        key = loc.key
        if loc.eff.kind == 'local' or loc.init is UNDEF:
            if key[0] == 'env':
                v = loc.eff.v if loc.eff.kind == 'local' else None
                if st is None or v is None or isinstance(v, (Opaque, Ref)):
                    base.env[key[1]] = core_LoopLast()
                    return
                try:
                    lastv = vsubst(v, [(self.k, endk - 1)])
                except Unsupported:
                    base.env[key[1]] = core_LoopLast()
                    return
                if ctx.prove_quick(endk > 0, ms=300):
                    base.env[key[1]] = lastv
                else:
                    base.env[key[1]] = IteV(endk > 0, lastv, UNDEF)
            else:
                v = loc.eff.v if loc.eff.kind == 'local' else None
                lastv = vsubst(v, [(self.k, endk - 1)]) if v is not None and not isinstance(v, Ref) else Opaque('loop')
                self.write(base, key, IteV(endk > 0, lastv, UNDEF))
            return
        f = loc.closed if loc.closed is not None else self.closer(loc)
        v = f(endk)
        if loc.content and key[0] != 'heap':
            r = Ref(loc.reref.kind, loc.reref.cls)
            base.heap[r.id] = v
            self.write(base, key, r)
        else:
            self.write(base, key, v)

    def exit_state(self, e, base):
        """state of an early exit at index K: locations unchanged by the exiting iteration come from base"""
        st = base.copy()
        pr = [(self.k, self.K)]
        for key in self.changed(self.sin, e.st):
            if self.is_reref(key):
                raise Unsupported("early exit after an in-place update of a loop variable")
            loc = self.locs.get(key)
            v = self.read(e.st, key)
            if key[0] == 'heap':
                c = v if is_numlike(v) else self.freeze_out(e.st, v)
                st.heap[key[1]] = vsubst(c, pr) if is_numlike(c) else csubst(c, pr)
                continue
            if isinstance(v, Ref) and v.id not in self.entry.heap:
                if v.kind in ('list', 'nd', 'dict', 'set'):
                    r = Ref(v.kind, v.cls)
                    st.heap[r.id] = csubst(self.freeze_out(e.st, e.st.heap[v.id]), pr)
                    self.write(st, key, r)
                else:
                    self.write(st, key, Opaque('object created in a loop'))
            else:
                self.write(st, key, vsubst(self.freeze_in(e.st, v) if not isinstance(v, Ref) else v, pr))
        # loop variables assigned before the exit keep the value of iteration K
        for x, v in e.st.env.items():
            if x in self.sin.env and self.sin.env[x] is v:
                continue
            if ('env', x) in self.locs or x not in self.entry.env:
                if isinstance(v, Ref):
                    continue
                try:
                    st.env[x] = vsubst(self.freeze_in(e.st, v), pr)
                except Unsupported:
                    st.env[x] = core_LoopLast()
        # objects created in the exiting iteration
        for i, c in e.st.heap.items():
            if i not in st.heap and i not in self.entry.heap and not is_numlike(c):
                try:
                    st.heap[i] = csubst(self.freeze_out(e.st, c), pr)
                except Unsupported:
                    pass
        return st


class OpaqueC:
    """content nothing is known about"""

    def __init__(self, name):
        self.name = name

    def decls(self, acc):
        acc.add('opaque:' + self.name)

    def csubst(self, pairs):
        return self

    def same_as(self, o):
        return o is self


class CEff(Eff):
    def values(self):
        if self.kind == 'append':
            return [Frozen(self.t)]
        if self.kind in ('cells', 'cells2', 'set_cells'):
            return self.eff.values()
        if self.kind == 'dict':
            return self.eff.values() + self.has.values()
        if self.kind in ('dlit', 'llit'):
            return [x for e in self.effs.values() for x in e.values()]
        return []

    def same(self, o):
        return False


Eff.KEYS['local'] = ('v',)


def eff_decls(e):
    acc = set()
    for v in e.values():
        value_decls(v, acc)
    return acc


def sub_eff(e, pairs):
    kw = {q: vsubst(getattr(e, q), pairs) for q in Eff.KEYS[e.kind] if getattr(e, q) is not None}
    return Eff(e.kind, **kw)


def apply_scalar(e, cur):
    if e.kind == 'id':
        return cur
    if e.kind == 'set':
        return e.v
    if e.kind == 'add':
        return arith('+', cur, e.e)
    if e.kind == 'or':
        return b_or(cur, e.e)
    if e.kind == 'and':
        return b_and(cur, e.e)
    if e.kind in ('max', 'min'):
        return ite(b_and(e.c, cmp_('>' if e.kind == 'max' else '<', e.e, cur)), e.e, cur)
    if e.kind == 'cset':
        return ite(e.c, e.v, cur)
    if e.kind == 'once':
        return ite(e.c, put_cell(e.e, cur), cur)
    return None


def put_cell(t, v):
    hole = z3.Const('cell?in', T(t).sort())
    v = R(v) if hole.sort() == RS else IT(v) if hole.sort() == I else T(v)
    return vsubst(t, [(hole, v)])


def minmax2x(kind, a, b):
    return ite(cmp_('>=' if kind == 'max' else '<=', a, b), a, b)


def eq_scalar(a, b):
    if isinstance(a, XR) or isinstance(b, XR):
        a, b = xr(a), xr(b)
        return b_and(T(a.p) == T(b.p), T(a.n) == T(b.n),
                     b_implies(b_not(b_or(a.p, a.n)), cmp_('==', a.v, b.v)))
    return cmp_('==', a, b)


def add_cond(e):
    """condition c of e = If(c, x, 0)"""
    if is_sym(e) and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        if is_zero(b):
            inner = add_cond(a)
            return b_and(c, inner) if inner is not None else c
        if is_zero(a):
            inner = add_cond(b)
            return b_and(b_not(c), inner) if inner is not None else b_not(c)
    return None


def factor(t, k):
    """(conditions free of k, rest): t is rest if they hold and zero otherwise"""
    if not (is_sym(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and is_zero(t.arg(2))):
        return [], t
    fixed, c = [], []
    for x in flat_and(t.arg(0)):
        (fixed if is_sym(x) and not occurs(k, x) else c).append(x)
    f2, rest = factor(t.arg(1), k)
    if not fixed and not f2:
        return [], t
    return fixed + f2, ite(b_and(*c), rest, zero_of(rest)) if c else rest


def is_zero(t):
    return (z3.is_int_value(t) and t.as_long() == 0) or (z3.is_rational_value(t) and t.as_fraction() == 0)


def value_cset2(out, ph):
    """(cond, value) relative to an opaque placeholder object"""
    if out is ph:
        return False, None
    if isinstance(out, IteV):
        a, b = value_cset2(out.a, ph), value_cset2(out.b, ph)
        if a is None or b is None:
            return None
        v = b[1] if a[0] is False else a[1] if b[0] is False else ite(out.c, a[1], b[1])
        return b_ite(out.c, a[0], b[0]), v
    if isinstance(out, Opaque):
        return None
    return True, out


def tail(out, In):
    """sequence appended to In, or None"""
    if out is In:
        return Lit([])
    if isinstance(out, Concat):
        t = tail(out.a, In)
        return None if t is None else mkconcat(t, out.b)
    if isinstance(out, IteSeq):
        a, b = tail(out.a, In), tail(out.b, In)
        if a is None or b is None:
            return None
        if isinstance(a, Lit) and isinstance(b, Lit) and a.n == 0 and b.n == 0:
            return a
        return IteSeq(out.c, a, b)
    return None


def join_tail(cur, t):
    return mkconcat(cur, t)


def single(t):
    """(cond, value) if the tail has at most one element"""
    if isinstance(t, Lit):
        if t.n == 0:
            return False, None
        if t.n == 1:
            return True, t.items[0]
        return None
    if isinstance(t, IteSeq):
        a, b = single(t.a), single(t.b)
        if a is None or b is None:
            return None
        v = b[1] if a[0] is False else a[1] if b[0] is False else ite(t.c, a[1], b[1])
        return b_ite(t.c, a[0], b[0]), v
    return None


def same_len(out, In):
    if out is In:
        return True
    if isinstance(out, Store):
        return same_len(out.base, In)
    if isinstance(out, IteSeq):
        return same_len(out.a, In) and same_len(out.b, In)
    if isinstance(out, Fn):
        return val_same(out.n, In.n)
    return False


def cell_tree(out, In, q):
    """'in' | ('val', v) | ('ite', c, a, b): content of the cell q of out relative to In"""
    if out is In:
        return 'in'
    if isinstance(out, Store):
        return ('ite', cmp_('==', q[0], out.i), ('val', out.v), cell_tree(out.base, In, q))
    if isinstance(out, (IteSeq, NdIte, DIte)):
        a, b = cell_tree(out.a, In, q), cell_tree(out.b, In, q)
        if a is None or b is None:
            return None
        return ('ite', out.c, a, b)
    if isinstance(out, NdStore):
        b = cell_tree(out.base, In, q)
        if b is None:
            return None
        return ('ite', b_and(*[cmp_('==', x, y) for x, y in zip(q, out.idx)]), ('val', out.v), b)
    if isinstance(out, DStore):
        b = cell_tree(out.base, In, q)
        if b is None:
            return None
        return ('ite', veq(q[0], out.key), ('val', out.v), b)
    if isinstance(out, Nd):
        v = out.f(*q)
        return ('val', v) if is_numlike(v) else None
    if isinstance(out, Seq):
        try:
            return ('val', out.at(q[0]))
        except Unsupported:
            return None
    if isinstance(out, Dct) and not isinstance(out, (DPop, DLit)):
        try:
            return ('val', out.get(q[0]))
        except Unsupported:
            return None
    return None


def vector_of(v):
    """(length, fn) of a one-dimensional array held in a list, or None"""
    if isinstance(v, Frozen):
        return (v.content.shape[0], lambda j: v.content.f(j)) if isinstance(v.content, Nd) and v.content.ndim == 1 else None
    if isinstance(v, IteV):
        a, b = vector_of(v.a), vector_of(v.b)
        if a is None or b is None:
            return None
        return ite(v.c, a[0], b[0]), lambda j: ite(v.c, a[1](j), b[1](j))
    return None


def dtype_of(c):
    v = c.at(z3.Const('q?sample', I))
    while isinstance(v, IteV):
        v = v.a
    return v.content.dtype


def nested_tree(out, In, q):
    if out is In:
        return 'in'
    if isinstance(out, Store):
        v = vector_of(out.v)
        b = nested_tree(out.base, In, q)
        return None if v is None or b is None else ('ite', cmp_('==', q[0], out.i), ('val', v[1](q[1])), b)
    if isinstance(out, IteSeq):
        a, b = nested_tree(out.a, In, q), nested_tree(out.b, In, q)
        return None if a is None or b is None else ('ite', out.c, a, b)
    v = vector_of(out.at(q[0]))
    return None if v is None else ('val', v[1](q[1]))


def own_cell(t, in_q, q, pairs=()):
    """where the cell q is known to be the cell written (q == i), write in[q] for in[i]"""
    if isinstance(t, str):
        return t
    if t[0] == 'val':
        v = t[1]
        if pairs and is_sym(v) and is_sym(in_q):
            at = z3.substitute(in_q, *pairs)
            if not at.eq(in_q):
                v = z3.substitute(v, (at, in_q))
        return ('val', v)
    c = t[1]
    new = list(pairs)
    for x in (flat_and(c) if is_sym(c) else []):
        if z3.is_eq(x):
            a, b = x.children()
            for y in q:
                if a.eq(y) and not occurs_in(y, b):
                    new.append((y, b))
                elif b.eq(y) and not occurs_in(y, a):
                    new.append((y, a))
    return ('ite', c, own_cell(t[2], in_q, q, tuple(new)), own_cell(t[3], in_q, q, pairs))


def occurs_in(x, t):
    todo = [t]
    while todo:
        y = todo.pop()
        if y.eq(x):
            return True
        todo.extend(y.children())
    return False


def leaves(t):
    if t == 'in':
        return []
    if t[0] == 'val':
        return [t[1]]
    return leaves(t[2]) + leaves(t[3])


def build(t, in_):
    if isinstance(t, str):
        return in_
    if t[0] == 'val':
        return t[1]
    return ite(t[1], build(t[2], in_), build(t[3], in_))


def tree_cset(t):
    if isinstance(t, str):
        return False, None
    if t[0] == 'val':
        return True, t[1]
    a, b = tree_cset(t[2]), tree_cset(t[3])
    v = b[1] if a[0] is False else a[1] if b[0] is False else ite(t[1], a[1], b[1])
    return b_ite(t[1], a[0], b[0]), v


def flat_key(k):
    if isinstance(k, tuple):
        out = []
        for x in k:
            out.extend(flat_key(x))
        return out
    if isinstance(k, bool):
        return [z3.IntVal(int(k))]
    if isinstance(k, int):
        return [z3.IntVal(k)]
    if is_sym(k):
        return [k]
    raise Unsupported("dictionary key %s in a loop" % type(k).__name__)


def key_like(key, q):
    q = list(q)

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return q.pop(0)
    return go(key)


def first_store(d):
    if isinstance(d, DStore):
        return d.key, d.v
    if isinstance(d, DIte):
        return first_store(d.a) or first_store(d.b)
    return None


def store_order(out, In):
    """keys appended to the insertion order by one iteration (as a tail), or None"""
    if out is In:
        return Lit([])
    if isinstance(out, DStore) and out.base is In:
        return Lit([out.key])
    if isinstance(out, DIte):
        a, b = store_order(out.a, In), store_order(out.b, In)
        if a is None or b is None:
            return None
        return IteSeq(out.c, a, b)
    return None
