"""Loops decided by a contract-supplied invariant (no closed form needed).

The invariant is an obligation at entry; then every location the body can change is forgotten (the set
is found by running the body until no new location changes), the invariant is assumed, one iteration is
executed from that arbitrary state, and the invariant is an obligation again wherever the iteration
falls through.  What is known after the loop is the state at its exits.  Candidate invariants "this
local still has the value it had at entry" are added for scalars and kept only if the body preserves them.
"""
import z3
from .core import *
from .seqs import *
from . import core
from .interp import Exit, core_LoopLast
from .loops import OpaqueC, SymLoop, body_outcomes, merge_outs, val_same, simp


class Spec:
    """override what the contract needs"""

    def inv(self, it, k):
        """[(name, formula)] about it.st; k: index of the iteration (None for while)"""
        return []

    def havoc(self, it, key, init):
        """a fresh value for a location, or NotImplemented"""
        return NotImplemented


class HoareLoop(SymLoop):
    def __init__(self, it, s, seq, spec):
        super().__init__(it, s, seq)
        self.spec = spec
        self.kinds = {}         # location -> 1 real, 2 possibly infinite, 3 other
        self.like = {}          # sequence -> content whose elements have the widest kind seen

    def at(self, st, fn):
        cur = self.it.st
        self.it.st = st
        try:
            return fn()
        finally:
            self.it.st = cur

    def forget(self, key):
        """(value to put, extra heap) for one location"""
        it = self.it
        init = self.read(self.entry, key)
        v = self.spec.havoc(it, key, init)
        if v is not NotImplemented:
            return v
        self.cur_names = set()
        name = 'lp_' + str(key[-1])
        kd = self.kinds.get(key, 0)
        if kd == 3:
            return Opaque('loop value of ' + name)
        if kd and is_numlike(init) and not is_boolv(init):
            init = PINF if kd == 2 else xr(init).v if isinstance(init, XR) else R(init)
        elif kd and init is not UNDEF:
            return Opaque('loop value of ' + name)
        if key[0] == 'heap':
            if is_numlike(init):
                t = self.clone(init, name)
                if key[1] == 'clock':
                    self.ctx.assume(cmp_('>=', t, init))
                return t
            return self.clone_content(self.like.get(key, init), name)
        if isinstance(init, Ref):
            if init.kind in ('list', 'nd', 'set') or (init.kind == 'dict'):
                r = Ref(init.kind, init.cls)
                try:
                    c = self.clone_content(self.like.get(key, self.entry.heap[init.id]), name)
                except Unsupported:
                    from .loops import OpaqueC
                    c = OpaqueC(name)
                it.st.heap[r.id] = c
                return r
            return Opaque('loop value of ' + name)
        return self.clone(init, name)

    def head(self, keys, same):
        """arbitrary state at the start of an iteration"""
        it = self.it
        st = self.entry.copy()
        it.st = st
        for key in keys:
            init = self.read(self.entry, key)
            if init is UNDEF and key[0] == 'env':
                st.env.pop(key[1], None)
                continue
            if key in same:
                continue
            self.write(st, key, self.forget(key))
        return st

    def invs(self, st, k):
        return self.at(st, lambda: self.spec.inv(self.it, k))

    @staticmethod
    def kind_of(v):
        if is_boolv(v):
            return 'b'
        return 'x' if isinstance(v, XR) else ('r' if is_realv(v) else 'i') if is_numlike(v) else 'o'

    def widen(self, key, v, st):
        """the iteration may leave v in this location; the values havoc produces must cover it"""
        init = self.read(self.entry, key)
        if isinstance(init, Ref) and isinstance(v, Ref) and init.id in self.entry.heap and v.id in st.heap:
            c = self.entry.heap[init.id]
            return self.widen_content(key, c, st.heap[v.id]) if isinstance(c, (Seq, Nd)) else False
        if isinstance(init, (Seq, Nd)):
            return self.widen_content(key, init, v)
        if init is UNDEF or key[0] == 'heap' and not is_numlike(init):
            return False
        a, b = self.kind_of(init), self.kind_of(v)
        if a == 'o':
            return False
        need = 0 if a == b else 3 if 'o' in (a, b) or 'b' in (a, b) else 2 if 'x' in (a, b) else 1 if a == 'i' else 0
        if need > self.kinds.get(key, 0):
            self.kinds[key] = need
            return True
        return False

    def sample(self, c):
        try:
            q = z3.Const('q?sample', I)
            return c.at(q) if isinstance(c, Seq) else c.f(*[q for _ in c.shape])
        except Unsupported:
            return None

    def widen_content(self, key, init, v):
        if not isinstance(v, (Seq, Nd)) or type(v) is OpaqueC:
            return False
        a, b = self.sample(self.like.get(key, init)), self.sample(v)
        if b is None:
            return False
        order = ['i', 'r', 'x']
        if a is None:
            self.like[key] = v
            return True
        ka, kb = self.kind_of(a), self.kind_of(b)
        if ka == kb:
            return False
        if ka in order and kb in order:
            if order.index(kb) > order.index(ka):
                self.like[key] = v
                return True
            return False
        raise Unsupported("elements of a list change their type in the loop")

    def candidates(self, keys):
        out = set()
        for key in keys:
            v = self.read(self.entry, key)
            if key[0] in ('env', 'field') and (is_numlike(v) or is_boolv(v) or v is None):
                out.add(key)
        return out

    def iteration(self, st, k):
        it = self.it
        self.sin = st
        it.st = st.copy()
        return body_outcomes(it, self.s, (lambda: self.seq.at(k)) if self.seq is not None else None, self.test)

    def run(self):
        it, ctx = self.it, self.ctx
        if self.s.orelse:
            raise Unsupported("loop/else")
        self.entry = it.st.copy()
        n = None if self.seq is None else self.seq.n
        k = None
        if n is not None:
            k = ctx.fresh('it', I)
        base_facts = [] if k is None else [b_and(cmp_('<=', 0, k), cmp_('<', k, n))]
        keys, same = [], set()
        # ---- which locations change, and which candidate equalities survive
        for rnd in range(20):
            old = ctx.record
            ctx.record = False
            ctx.scopes.append(core.Scope())
            try:
                for f in base_facts:
                    ctx.assume(f)
                st = self.head(keys, same)
                for nm, f in self.invs(st, k):
                    ctx.assume(f)
                outs, exits = self.iteration(st, k)
                new, drop, wide = [], set(), False
                for c, o in outs:
                    for key in self.changed(st, o):
                        if key not in keys and key not in new:
                            new.append(key)
                        elif key in same:
                            drop.add(key)
                        if self.widen(key, self.read(o, key), o):
                            wide = True
                    for key in list(same):
                        if key in drop:
                            continue
                        v, w = self.read(o, key), self.read(self.entry, key)
                        if v is w or val_same(v, w):
                            continue
                        drop.add(key)
                # a candidate that is not syntactically preserved may still be semantically
                for key in list(drop):
                    ok = True
                    for c, o in outs:
                        v, w = self.read(o, key), self.read(self.entry, key)
                        if v is w or val_same(v, w):
                            continue
                        if not ((is_numlike(v) or is_boolv(v)) and (is_numlike(w) or is_boolv(w))):
                            ok = False
                            break
                        eq = (T(v) == T(w)) if is_boolv(v) else cmp_('==', v, w)
                        g = len(ctx.guard)
                        if c is not True:
                            ctx.guard.append(c)
                        if not ctx.prove_quick(T(eq), ms=1000):
                            ok = False
                        del ctx.guard[g:]
                        if not ok:
                            break
                    if ok:
                        drop.discard(key)
            finally:
                ctx.scopes.pop()
                ctx.record = old
            if new:
                keys += new
                same |= self.candidates(new)
            if drop:
                same -= drop
            if not new and not drop and not wide:
                break
        else:
            raise Unsupported("loop frame does not stabilise")
        # ---- obligations
        pos = ctx.pos
        for nm, f in self.invs(self.entry, z3.IntVal(0) if k is not None else None):
            ctx.pos = pos + ' (loop)'
            ctx.oblige("loop invariant initially: " + nm, f, assume_after=False)
        g0 = list(ctx.guard)
        ended = None
        if n is not None:
            ended = ctx.fresh('loop_ended', B)
            ctx.guard.append(b_not(ended))
            for f in base_facts:
                ctx.assume(f)
        st = self.head(keys, same)
        for nm, f in self.invs(st, k):
            ctx.assume(f)
        outs, exits = self.iteration(st, k)
        for c, o in outs:
            g = len(ctx.guard)
            if c is not True:
                ctx.guard.append(c)
            for key in same:
                v, w = self.read(o, key), self.read(self.entry, key)
                if not (v is w or val_same(v, w)):
                    eq = (T(v) == T(w)) if is_boolv(v) else cmp_('==', v, w)
                    ctx.oblige("loop invariant preserved: %s unchanged" % (key[-1],), eq, assume_after=False)
            for nm, f in self.invs(o, (k + 1) if k is not None else None):
                ctx.pos = pos + ' (loop)'
                ctx.oblige("loop invariant preserved: " + nm, f, assume_after=False)
            del ctx.guard[g:]
        fr = it.frames[-1]
        fr.cut = True
        fall = []
        for e in exits:
            if simp(e.cond) is False:
                continue
            cc = e.cond if ended is None else b_and(b_not(ended), e.cond)
            if e.kind in ('break', 'done'):
                fall.append((cc, e.st))
            else:
                pre = [x for x in g0[fr.g0:]]
                fr.exits.append(Exit(b_and(*(pre + [cc])), e.kind, e.value, e.st))
        ctx.guard[:] = g0
        if n is not None:
            ctx.guard.append(ended)
            nn = IT(n)
            stn = self.head(keys, same)
            end = ctx.fresh('it_end', I)
            ctx.assume(end == z3.If(nn >= 0, nn, z3.IntVal(0)))
            for nm, f in self.invs(stn, end):
                ctx.assume(f)
            ctx.guard[:] = g0
            fall.append((ended, stn))
        if not fall:
            return False
        c, it.st = merge_outs(it, fall)
        c = simp(c)
        if c is not True:
            ctx.guard.append(c)
        return True
