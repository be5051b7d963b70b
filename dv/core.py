"""Core of the deductive verifier: values, sequence terms, sums, verification context.

Every number is mathematical (Int / Real).  A value is one of
  * python int / bool / Fraction / str / None / tuple, or a z3 term (Int, Real, Bool),
  * XR: an extended real (for +-inf),
  * Ref: a heap object (list, array, dict, set, instance, Gurobi model), content in State.heap,
  * Frozen: a by-value snapshot of a list/dict/array held inside another container,
  * IteV: a lazily merged pair of values that have no common term representation,
  * function-like values (see interp.py).
"""
from fractions import Fraction
import z3

I, RS, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()


class Unsupported(Exception):
    """The code left the subset the verifier understands."""


class _Uid:
    """Name counter.  Loop passes rewind it so that re-executing a body yields the same symbols."""
    n = 0


def uid():
    _Uid.n += 1
    return _Uid.n


def uid_mark():
    return _Uid.n


def uid_reset(m):
    _Uid.n = m


_ufix = [0]


def uid_fixed():
    """names that are never rewound (substitution placeholders)"""
    _ufix[0] += 1
    return _ufix[0]


# ------------------------------------------------------------------ scalars
def is_sym(v):
    return isinstance(v, z3.ExprRef)


def is_boolv(v):
    return isinstance(v, bool) or (isinstance(v, z3.ExprRef) and v.sort() == B)


def is_numlike(v):
    return isinstance(v, (int, Fraction, XR)) or (
        isinstance(v, z3.ExprRef) and v.sort() in (I, RS, B))


def is_realv(v):
    return isinstance(v, (Fraction, XR)) or (isinstance(v, z3.ExprRef) and v.sort() == RS)


def T(v):
    """z3 term of a finite scalar."""
    if isinstance(v, z3.ExprRef):
        return v
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    if isinstance(v, XR):
        raise Unsupported("possibly infinite value used as a finite term")
    raise Unsupported("no term for %r" % (type(v).__name__,))


def num(v):
    """numeric (Int/Real) term or python number of v; booleans become 0/1."""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, z3.ExprRef) and v.sort() == B:
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, (int, Fraction, XR)):
        return v
    if isinstance(v, z3.ExprRef):
        return v
    raise Unsupported("not a number: %s" % type(v).__name__)


def R(v):
    """Real term."""
    v = num(v)
    if isinstance(v, (int, Fraction)):
        return z3.RealVal(str(v))
    if isinstance(v, XR):
        raise Unsupported("possibly infinite value used as a finite term")
    return z3.ToReal(v) if v.sort() == I else v


def IT(v):
    v = num(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ExprRef) and v.sort() == I:
        return v
    if isinstance(v, Fraction) and v.denominator == 1:
        return z3.IntVal(v.numerator)
    raise Unsupported("integer expected")


def b_and(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return False
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return True
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    if z3.is_true(x):
        return False
    if z3.is_false(x):
        return True
    return z3.Not(x)


def b_implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    return z3.Implies(T(a), T(b))


class XR:
    """Extended real: +inf if p, -inf if n, else v."""

    def __init__(self, p, n, v):
        self.p, self.n, self.v = p, n, v

    def __repr__(self):
        return "XR(%s,%s,%s)" % (self.p, self.n, self.v)


PINF, NINF = XR(True, False, 0), XR(False, True, 0)


def xr(v):
    if isinstance(v, XR):
        return v
    return XR(False, False, num(v))


def xr_norm(x):
    if x.p is False and x.n is False:
        return x.v
    return x


def arith(op, a, b):
    a, b = num(a), num(b)
    if isinstance(a, XR) or isinstance(b, XR):
        return xr_arith(op, xr(a), xr(b))
    conc = not (is_sym(a) or is_sym(b))
    if op == '+':
        if conc:
            return a + b
        if not is_sym(a) and a == 0 and (not isinstance(a, Fraction) or b.sort() == RS):
            return b
        if not is_sym(b) and b == 0 and (not isinstance(b, Fraction) or a.sort() == RS):
            return a
    elif op == '-':
        if conc:
            return a - b
        if not is_sym(b) and b == 0 and (not isinstance(b, Fraction) or a.sort() == RS):
            return a
    elif op == '*':
        if conc:
            return a * b
        for u, w in ((a, b), (b, a)):
            if not is_sym(u):
                if u == 1 and (not isinstance(u, Fraction) or w.sort() == RS):
                    return w
                if u == 0:
                    return Fraction(0) if (isinstance(u, Fraction) or w.sort() == RS) else 0
    elif op == '/':
        if conc:
            return Fraction(a) / Fraction(b)
    elif op in ('//', '%'):
        if conc:
            if isinstance(a, int) and isinstance(b, int):
                return a // b if op == '//' else a % b
            raise Unsupported("real //")
    if is_realv(a) or is_realv(b) or op == '/':
        x, y = R(a), R(b)
    else:
        x, y = IT(a), IT(b)
    if op == '+':
        return x + y
    if op == '-':
        return x - y
    if op == '*':
        return x * y
    if op == '/':
        return x / y
    if op in ('//', '%'):
        if x.sort() != I:
            raise Unsupported("real floor division")
        # z3 div/mod agree with python for positive divisors; callers check the sign
        return x / y if op == '//' else x % y
    raise Unsupported("operator " + op)


def xr_arith(op, a, b):
    if op == '-':
        return xr_arith('+', a, XR(b.n, b.p, arith('-', 0, b.v)))
    if op == '+':
        # inf + (-inf) is left unspecified as +inf (the engine never relies on it)
        p = b_or(a.p, b.p)
        n = b_and(b_or(a.n, b.n), b_not(p))
        return xr_norm(XR(p, n, arith('+', a.v, b.v)))
    if op == '*':
        if a.p is False and a.n is False and not is_sym(a.v):
            if a.v == 0:
                return 0
            if a.v > 0:
                return xr_norm(XR(b.p, b.n, arith('*', a.v, b.v)))
            return xr_norm(XR(b.n, b.p, arith('*', a.v, b.v)))
        if b.p is False and b.n is False:
            if not is_sym(b.v):
                return xr_arith('*', b, a)
            pos, neg = cmp_('>', b.v, 0), cmp_('<', b.v, 0)
            return XR(b_or(b_and(a.p, pos), b_and(a.n, neg)), b_or(b_and(a.n, pos), b_and(a.p, neg)),
                      arith('*', a.v, b.v))
        if a.p is False and a.n is False:
            return xr_arith('*', b, a)
    if op == '/':
        if b.p is False and b.n is False:
            if not is_sym(b.v):
                return xr_arith('*', a, xr(Fraction(1) / Fraction(b.v)))
            pos, neg = cmp_('>', b.v, 0), cmp_('<', b.v, 0)
            return XR(b_or(b_and(a.p, pos), b_and(a.n, neg)), b_or(b_and(a.n, pos), b_and(a.p, neg)),
                      arith('/', a.v, b.v))
    raise Unsupported("arithmetic %s on possibly infinite values" % op)


def neg(a):
    a = num(a)
    if isinstance(a, XR):
        return XR(a.n, a.p, neg(a.v))
    if not is_sym(a):
        return -a
    return -a


def cmp_(op, a, b):
    """comparison of numbers (or booleans); python bool or z3 Bool."""
    if op in ('==', '!='):
        if is_boolv(a) and is_boolv(b):
            if isinstance(a, bool) and isinstance(b, bool):
                r = a == b
            else:
                r = T(a) == T(b)
            return r if op == '==' else b_not(r)
    a, b = num(a), num(b)
    if isinstance(a, XR) or isinstance(b, XR):
        a, b = xr(a), xr(b)
        fa, fb = b_not(b_or(a.p, a.n)), b_not(b_or(b.p, b.n))
        if op == '<=':
            return b_or(a.n, b.p, b_and(fa, fb, cmp_('<=', a.v, b.v)))
        if op == '<':
            return b_or(b_and(a.n, b_not(b.n)), b_and(b.p, b_not(a.p)),
                        b_and(fa, fb, cmp_('<', a.v, b.v)))
        if op == '>=':
            return cmp_('<=', b, a)
        if op == '>':
            return cmp_('<', b, a)
        if op == '==':
            return b_or(b_and(a.p, b.p), b_and(a.n, b.n), b_and(fa, fb, cmp_('==', a.v, b.v)))
        if op == '!=':
            return b_not(cmp_('==', a, b))
    if not (is_sym(a) or is_sym(b)):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    if is_realv(a) or is_realv(b):
        x, y = R(a), R(b)
    else:
        x, y = IT(a), IT(b)
    if x.eq(y):
        return op in ('<=', '>=', '==')
    return {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
            '==': lambda: x == y, '!=': lambda: x != y}[op]()


# ------------------------------------------------------------------ heap values
class Ref:
    """Reference to a mutable object."""

    def __init__(self, kind, cls=None):
        self.id, self.kind, self.cls = uid(), kind, cls

    def __repr__(self):
        return "<%s %s%d>" % (self.kind, self.cls.name + ' ' if self.cls is not None else '', self.id)


class Frozen:
    """By-value container content found inside another container.
    origin = (container value, key): where an in-place update is written back."""

    def __init__(self, content, origin=None, kind=None):
        self.content, self.origin, self.kind = content, origin, kind


class IteV:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class Undef:
    def __repr__(self):
        return "<undefined>"


UNDEF = Undef()


class Opaque:
    """A value nothing is known about (only passed around)."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<opaque %s>" % self.what


class StrV:
    """A string with symbolic parts: tuple of str | ('fmt', spec, value) ..."""

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif p != '':
                out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return "StrV%r" % (self.parts,)


def str_parts(v):
    if isinstance(v, str):
        return (v,)
    if isinstance(v, StrV):
        return v.parts
    raise Unsupported("string expected")


def mkstr(parts):
    s = StrV(parts)
    if not s.parts:
        return ''
    if len(s.parts) == 1 and isinstance(s.parts[0], str):
        return s.parts[0]
    return s


class ObjC:
    """content of an instance"""

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def with_(self, name, v):
        f = dict(self.fields)
        f[name] = v
        return ObjC(self.cls, f)


class SetC:
    """set content: membership predicate, optional enumeration (Seq with possible duplicates)"""

    def __init__(self, mem, seq=None, distinct=False):
        self.mem, self.seq, self.distinct = mem, seq, distinct


# ------------------------------------------------------------------ context
class Scope:
    def __init__(self, k=None, rng=True):
        self.k, self.rng, self.facts = k, rng, []


class Obligation:
    __slots__ = ('name', 'hyps', 'goal', 'where', 'result', 'time', 'info', 'backend')

    def __init__(self, name, hyps, goal, where=''):
        self.name, self.hyps, self.goal, self.where = name, hyps, goal, where
        self.result = None
        self.time = 0.0
        self.info = ''
        self.backend = ''


class SumDef:
    """prefix-sum symbol: S(n, params) = sum_{0<=k<n} body(k, params)"""

    def __init__(self, f, k, params, body, zero_one, nonneg):
        self.f, self.k, self.params, self.body = f, k, params, body
        self.zero_one, self.nonneg = zero_one, nonneg

    def inst(self, k, args):
        return z3.substitute(self.body, (self.k, k), *zip(self.params, args))


class Ctx:
    def __init__(self, name):
        self.name = name
        self.scopes = [Scope()]
        self.guard = []              # current path guard (conjuncts)
        self.obligations = []
        self.index_ids = {}          # ast id -> const (loop indices / bound variables)
        self.sums = {}               # key -> SumDef
        self.masks = []              # (SumDef, [n, parameters...]) of the filters met
        self.sumdefs = {}            # decl name -> SumDef
        self.mmdefs = {}
        self.posdefs = {}            # position function name -> SumDef
        self.axioms = []             # (set of decl names that trigger it, formula)
        self.assumptions = set()     # trusted-base notes
        self.record = True           # False while probing loops
        self.pos = ''
        self.keep = []               # keep z3 asts alive (ids are used as keys)
        self.lemmas_used = set()
        self.prob_cache = {}
        self.stats = dict(sat_checks=0)

    # ---- fresh symbols
    def idx_consts(self):
        return [s.k for s in self.scopes if s.k is not None]

    def fresh(self, name, sort):
        ks = self.idx_consts()
        nm = "%s!%d" % (name, uid())
        if not ks:
            return z3.Const(nm, sort)
        f = z3.Function(nm, *([k.sort() for k in ks] + [sort]))
        return f(*ks)

    def fresh_fn(self, name, argsorts, sort):
        """fresh function; implicitly depends on the enclosing loop indices"""
        ks = self.idx_consts()
        nm = "%s!%d" % (name, uid())
        f = z3.Function(nm, *([k.sort() for k in ks] + list(argsorts) + [sort]))
        return lambda *a: f(*(list(ks) + list(a)))

    def bound(self, name='i', sort=I):
        k = z3.Const("%s?%d" % (name, uid()), sort)
        self.index_ids[k.get_id()] = k
        self.keep.append(k)
        return k

    # ---- scopes
    def push(self, k, rng):
        self.scopes.append(Scope(k, rng))

    def pop(self, close_range=None, keep=True):
        """leave the scope of index k; its facts are generalised over close_range(k)"""
        s = self.scopes.pop()
        if not keep:
            return
        rng = s.rng if close_range is None else close_range
        for f in s.facts:
            self.scopes[-1].facts.append(quant(s.k, rng, f))

    def assume(self, f, glob=False):
        if f is True:
            return
        f = T(f)
        if z3.is_true(f):
            return
        if self.guard:
            g = b_and(*self.guard)
            f = z3.Implies(T(g), f) if g is not True else f
        self.scopes[-1].facts.append(f)

    def axiom(self, trig, f):
        self.axioms.append((frozenset(trig), f))

    def all_facts(self):
        out = []
        for s in self.scopes:
            if s.rng is not True:
                out.append(T(s.rng))
            out.extend(s.facts)
        return out

    def g(self):
        return b_and(*self.guard)

    no_safety = False           # frame contracts: what holds if no index is out of bounds

    def oblige(self, name, goal, assume_after=True):
        """emit a proof obligation under the current path"""
        if goal is True or (is_sym(goal) and z3.is_true(goal)):
            if self.record:
                self.obligations.append(Obligation(name, None, True, self.pos))
            return
        if self.no_safety and (name.endswith(' in bounds') or name.endswith(' is defined')):
            self.assume(goal)
            return
        if self.record:
            h = self.all_facts()
            g = self.g()
            if g is not True:
                h.append(T(g))
            self.obligations.append(Obligation(name, h, T(goal), self.pos))
        # a position in a filtered list: some element passes the filter
        if assume_after and (not name.endswith(' in bounds') or self.sumdefs and not self.sumdefs.keys().isdisjoint(decl_names(T(goal)))):
            self.assume(goal)

    # ---- quick checks used by the engine itself
    def prove_quick(self, goal, extra=(), ms=1500):
        """True only if goal follows from the current facts (used for simplification only)."""
        if isinstance(goal, bool):
            return goal
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal) and not self.guard and len(self.scopes) == 1:
            return False
        self.stats['sat_checks'] += 1
        s = z3.SolverFor('QF_UFNIRA') if False else z3.Solver()
        s.set('timeout', ms)
        for f in self.all_facts():
            if not has_quant(f):
                s.add(f)
        g = self.g()
        if g is not True:
            s.add(T(g))
        for e in extra:
            s.add(T(e))
        for t in perm_terms(goal):
            n, a = PERM_DECLS[t.decl().name()], t.arg(0)
            s.add(z3.Implies(z3.And(a >= 0, a < n), z3.And(t >= 0, t < n)))
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def prove_full(self, goal, ms=2000):
        """as prove_quick, with the quantified facts too"""
        if isinstance(goal, bool):
            return goal
        if self.prove_quick(goal, ms=200):
            return True
        self.stats['sat_checks'] += 1
        from . import prove
        hyps = self.all_facts()
        g = self.g()
        if g is not True:
            hyps.append(T(g))
        return prove.quick_valid(self, hyps, T(goal), ms)

    def prove_pure(self, goal, ms=1000):
        """validity without any hypothesis"""
        if isinstance(goal, bool):
            return goal
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return True
        if z3.is_false(goal):
            return False
        s = z3.Solver()
        s.set('timeout', ms)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    # ---- quantifiers
    def forall(self, n, fn, name='i', lo=0, sort=I):
        k = self.bound(name, sort)
        rng = b_and(cmp_('<=', lo, k), cmp_('<', k, n)) if sort == I and n is not None else True
        self.push(k, rng)
        try:
            body = fn(k)
        finally:
            self.pop()
        if body is True:
            return True
        return quant(k, rng, T(body))

    def exists(self, n, fn, name='i', lo=0, sort=I):
        k = self.bound(name, sort)
        rng = b_and(cmp_('<=', lo, k), cmp_('<', k, n)) if sort == I and n is not None else True
        self.push(k, rng)
        try:
            body = fn(k)
        finally:
            self.pop()
        if body is False:
            return False
        body = z3.simplify(T(body))
        if z3.is_false(body):
            return False
        return close_q(z3.Exists, k, T(b_and(rng, body)))

    # ---- sums
    def sum(self, n, fn, lo=0):
        """sum_{lo<=k<n} fn(k) for a symbolic n (lo = 0)."""
        if isinstance(n, int) and not isinstance(n, bool) and n <= 4 and lo == 0:
            acc = 0
            for q in range(n):
                acc = arith('+', acc, fn(z3.IntVal(q)))
            return acc
        assert lo == 0
        k = self.bound('k')
        rng = b_and(cmp_('<=', 0, k), cmp_('<', k, n))
        self.push(k, rng)
        try:
            body = num(fn(k))
        finally:
            self.pop()
        if isinstance(body, XR):
            raise Unsupported("sum of possibly infinite terms")
        body = z3.simplify(T(body), som=False)
        if z3.is_rational_value(body) or z3.is_int_value(body):
            c = body
            nn = IT(n)
            if c.sort() == I:
                if c.as_long() == 0:
                    return 0
                return z3.If(nn >= 0, c * nn, z3.IntVal(0)) if not isinstance(n, int) else c.as_long() * n
            if c.as_fraction() == 0:
                return Fraction(0)
            return z3.If(nn >= 0, c * z3.ToReal(nn), z3.RealVal(0))
        if not occurs(k, body):
            m = z3.If(IT(n) >= 0, IT(n), z3.IntVal(0))
            return body * (m if body.sort() == I else z3.ToReal(m))
        parts = split_linear(body, k)
        if len(parts) > 1 or parts[0][0] is not None:
            acc = 0
            for coef, b in parts:
                if b is None:
                    m = z3.If(IT(n) >= 0, IT(n), z3.IntVal(0))
                    t = coef * (m if coef.sort() == I else z3.ToReal(m))
                else:
                    t = self.sum_atom(n, k, b)
                    if coef is not None:
                        t = arith('*', coef, t)
                acc = arith('+', acc, t)
            return acc
        return self.sum_atom(n, k, body)

    def sum_atom(self, n, k, b):
        b = int_ite(b)
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_TO_REAL:
            return z3.ToReal(self.sum_atom(n, k, b.arg(0)))
        if z3.is_app(b) and b.decl().kind() == z3.Z3_OP_UMINUS:
            return -self.sum_atom(n, k, b.arg(0))
        d = self.sumdef(k, b)
        return d.f(IT(n), *self._sum_args)

    def sumdef(self, k, body):
        params, ph, key_body = self.abstract(body, k)
        key = (key_body.get_id(), 'sum')
        self._sum_args = params
        if key in self.sums:
            return self.sums[key]
        zero_one = is_zero_one(body)
        kk = z3.Const('k#', I)
        nonneg = zero_one or is_nonneg_syn(body)
        f = z3.Function("sum!%d" % uid_fixed(), *([I] + [p.sort() for p in ph] + [body.sort()]))
        d = SumDef(f, kk, ph, key_body, zero_one, nonneg)
        self.keep.append(key_body)
        self.sums[key] = d
        self.sumdefs[f.name()] = d
        return d

    def abstract(self, body, k):
        """replace k by a placeholder and every maximal k-free non-literal subterm by a parameter"""
        found, ids = [], {}
        dep = {}

        def depends(t):
            i = t.get_id()
            if i in dep:
                return dep[i]
            if t.eq(k):
                r = True
            elif z3.is_quantifier(t):
                r = depends(t.body())
            elif z3.is_var(t):
                r = False
            else:
                r = any([depends(c) for c in t.children()])
            dep[i] = r
            return r

        def has_var(t):
            if z3.is_var(t):
                return True
            if z3.is_quantifier(t):
                return True
            return any(has_var(c) for c in t.children())

        def walk(t, under):
            if z3.is_quantifier(t):
                if not depends(t) and not under:
                    add(t)
                    return
                walk(t.body(), True)
                return
            if z3.is_var(t) or t.eq(k):
                return
            if not depends(t):
                if z3.is_int_value(t) or z3.is_rational_value(t) or z3.is_true(t) or z3.is_false(t) \
                        or z3.is_string_value(t):
                    return
                if not (under and has_var(t)):
                    add(t)
                    return
            for c in t.children():
                walk(c, under)

        def add(t):
            if t.get_id() not in ids:
                ids[t.get_id()] = len(found)
                found.append(t)
        walk(body, False)
        ph = [z3.Const('p#%d_%s' % (j, c.sort().name()), c.sort()) for j, c in enumerate(found)]
        kb = z3.substitute(body, (k, z3.Const('k#', k.sort())), *zip(found, ph))
        self.keep.append(kb)
        self.keep.extend(found)
        return found, ph, kb

    # ---- filters and flattening
    def filter_pos(self, src_n, cond, n):
        """position function of a filter: canonical per counting symbol"""
        nn = T(n)
        if z3.is_app(nn) and nn.decl().name() in self.sumdefs:
            d = self.sumdefs[nn.decl().name()]
            if getattr(d, 'pos', None) is None:
                d.pos = z3.Function("pos_" + d.f.name(), *([I, I] + [p.sort() for p in d.params] + [I]))
                self.posdefs[d.pos.name()] = d
            args = nn.children()      # n followed by parameters
            if not any(d is e and all(x.eq(y) for x, y in zip(args, a)) for e, a in self.masks):
                self.masks.append((d, args))
            return lambda p: d.pos(IT(p), *args)
        raise Unsupported("filter with a degenerate condition")

    def flat_loc(self, fl):
        from . import seqs
        oc, oi = self.fresh_fn('floc', [I], I), self.fresh_fn('fidx', [I], I)
        q = self.bound('q')
        pre = self.sum(oc(q), lambda c: fl.inner(c).n)
        rng = b_and(cmp_('<=', 0, q), cmp_('<', q, fl.n))
        self.push(q, rng)
        self.assume(b_and(cmp_('<=', 0, oc(q)), cmp_('<', oc(q), fl.outer_n), cmp_('<=', 0, oi(q)),
                          cmp_('<', oi(q), fl.inner(oc(q)).n), cmp_('==', arith('+', pre, oi(q)), q)))
        self.pop()
        return oc, oi

    # ---- min / max folds
    def minmax(self, kind, n, fn, cond=None):
        """canonical symbol for max/min_{0<=k<n, cond(k)} fn(k) (meaningful when some k qualifies).
        Axioms (added at proof time): bound for every k, attained at a witness index."""
        k = self.bound('k')
        rng = b_and(cmp_('<=', 0, k), cmp_('<', k, n))
        self.push(k, rng)
        try:
            body = num(fn(k))
            c = True if cond is None else cond(k)
        finally:
            self.pop()
        if isinstance(body, XR):
            raise Unsupported("min/max of possibly infinite terms")
        body = z3.simplify(T(body))
        c = z3.simplify(T(c))
        if not occurs(k, body):
            return body
        both = z3.If(c, body, body + 1)      # keeps condition and value together for the abstraction
        args, ph, kb = self.abstract(both, k)
        key = (kb.get_id(), kind)
        if key not in self.sums:
            kk = z3.Const('k#', I)
            sorts = [I] + [p.sort() for p in ph]
            nm = uid_fixed()
            f = z3.Function("%s!%d" % (kind, nm), *(sorts + [body.sort()]))
            w = z3.Function("arg%s!%d" % (kind, nm), *(sorts + [I]))
            sub = lambda t: z3.substitute(t, (k, kk), *zip(args, ph))
            d = MMDef(kind, f, w, kk, ph, sub(body), sub(c))
            self.sums[key] = d
            self.mmdefs[f.name()] = d
        return self.sums[key].f(IT(n), *args)


class MMDef:
    """extremum of body over the indices that satisfy cond"""

    def __init__(self, kind, f, w, k, params, body, cond):
        self.kind, self.f, self.w, self.k, self.params, self.body = kind, f, w, k, params, body
        self.cond = cond

    def inst(self, k, args):
        return z3.substitute(self.body, (self.k, k), *zip(self.params, args))

    def inst_cond(self, k, args):
        return z3.substitute(self.cond, (self.k, k), *zip(self.params, args))


def split_linear(t, k):
    """t as a list of (coefficient or None, k-dependent body or None)"""
    if not occurs(k, t):
        return [(t, None)]
    if z3.is_app(t):
        kind = t.decl().kind()
        if kind == z3.Z3_OP_ADD:
            out = []
            for c in t.children():
                out.extend(split_linear(c, k))
            return out
        if kind == z3.Z3_OP_SUB:
            ch = t.children()
            out = split_linear(ch[0], k)
            for c in ch[1:]:
                out.extend([(z3.simplify(-(cf if cf is not None else mkone(c))), b)
                            for cf, b in split_linear(c, k)])
            return out
        if kind == z3.Z3_OP_UMINUS:
            return [(z3.simplify(-(cf if cf is not None else mkone(t))), b)
                    for cf, b in split_linear(t.arg(0), k)]
        if kind == z3.Z3_OP_MUL:
            free = [c for c in t.children() if not occurs(k, c)]
            dep = [c for c in t.children() if occurs(k, c)]
            if free and dep:
                cf = free[0]
                for c in free[1:]:
                    cf = cf * c
                rest = dep[0]
                for c in dep[1:]:
                    rest = rest * c
                return [(z3.simplify(cf if c2 is None else cf * c2), b) for c2, b in split_linear(rest, k)]
        if kind == z3.Z3_OP_DIV and not occurs(k, t.arg(1)):
            # (callers oblige the divisor to be nonzero)
            inv = z3.RealVal(1) / t.arg(1)
            return [(inv if c is None else z3.simplify(c * inv), b) for c, b in split_linear(t.arg(0), k)]
        if kind == z3.Z3_OP_TO_REAL:
            inner = split_linear(t.arg(0), k)
            if len(inner) > 1 or inner[0][0] is not None:
                return [(z3.ToReal(cf) if cf is not None else None,
                         z3.ToReal(b) if b is not None else None) for cf, b in inner]
        if kind == z3.Z3_OP_ITE and t.sort() != B:
            c, x, y = t.children()
            if not occurs(k, c):
                return [(None, t)]
    return [(None, t)]


def int_ite(t):
    """If(c, 1.0, 0.0) -> ToReal(If(c, 1, 0))"""
    if t.sort() == RS and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        def conv(x):
            if z3.is_rational_value(x):
                f = x.as_fraction()
                return z3.IntVal(f.numerator) if f.denominator == 1 else None
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_TO_REAL:
                return x.arg(0)
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                a, b = conv(x.arg(1)), conv(x.arg(2))
                if a is not None and b is not None:
                    return z3.If(x.arg(0), a, b)
            return None
        r = conv(t)
        if r is not None:
            return z3.ToReal(r)
    return t


def mkone(t):
    return z3.IntVal(1) if t.sort() == I else z3.RealVal(1)


def close_q(Q, k, body):
    """quantify k under a canonical name (z3 tells apart formulas that differ in bound names only)"""
    c = z3.Const('b', k.sort())
    return Q([c], z3.substitute(body, (k, c)))


def quant(k, rng, f):
    if k is None or not occurs(k, f):
        # fact does not mention the index: it holds whenever the range is non-empty
        if rng is True or k is None:
            return f if rng is True else z3.Implies(T(rng), f)
        return close_q(z3.ForAll, k, z3.Implies(T(rng), f))
    return close_q(z3.ForAll, k, z3.Implies(T(rng), f) if rng is not True else f)


def occurs(k, t):
    seen = set()
    st = [t]
    kid = k.get_id()
    while st:
        x = st.pop()
        i = x.get_id()
        if i == kid:
            return True
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
        else:
            st.extend(x.children())
    return False


_hq = {}


def has_quant(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def decl_names(t, acc=None):
    acc = set() if acc is None else acc
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(x.decl().name())
            st.extend(x.children())
    return acc


def is_zero_one(t):
    if z3.is_int_value(t):
        return t.as_long() in (0, 1)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return is_zero_one(t.arg(1)) and is_zero_one(t.arg(2))
    return False


def is_nonneg_syn(t):
    if z3.is_int_value(t):
        return t.as_long() >= 0
    if z3.is_rational_value(t):
        return t.as_fraction() >= 0
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE:
            return is_nonneg_syn(t.arg(1)) and is_nonneg_syn(t.arg(2))
        if k == z3.Z3_OP_ADD:
            return all(is_nonneg_syn(c) for c in t.children())
        if k == z3.Z3_OP_MUL:
            ch = t.children()
            return all(is_nonneg_syn(c) for c in ch) or (len(ch) == 2 and ch[0].eq(ch[1]))
        if k == z3.Z3_OP_TO_REAL:
            return is_nonneg_syn(t.arg(0))
        if k == z3.Z3_OP_UNINTERPRETED and t.decl().name() in NONNEG_DECLS:
            return True
    return False


NONNEG_DECLS = set()
PERM_DECLS = {}         # name of a permutation of 0..n-1 -> n


def perm_terms(t):
    out, seen, todo = [], set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.num_args() == 1 and x.decl().name() in PERM_DECLS:
            out.append(x)
        todo.extend(x.children())
    return out
