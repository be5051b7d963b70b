"""Assumed contract of gurobipy.

A variable group is a function of an assignment `pt` (one symbolic constant PT for the whole run) and an
index; an expression over variables is the ordinary value it has at PT; a constraint is the boolean it is
at PT.  The heap keeps, per model, `ok` (the conjunction of domains and constraints added so far, at PT),
`bad` (number of added and not yet removed constraints that PT violates, used when constraints are
removed), the objective at PT, its sense and the parameters.  accept(PT) = ok and bad == 0.

optimize() introduces a fresh assignment Q.  Assumed: status 2 (optimal), 3 (infeasible), 9 (time limit,
only with a TimeLimit) or 11 (interrupted); with a solution, accept(Q), ObjVal is the objective at Q and
ObjBound bounds the objective of every accepted assignment; status 2 gives a solution with
ObjVal = ObjBound (optimality and feasibility tolerances treated as zero); status 3 means nothing is
accepted; status 9 only after the time limit has elapsed.
"""
import z3
from .core import *
from .seqs import *
from . import core
from .interp import Builtin, ClassV, ModuleV, MethodV, DeadPath

CONT, BIN, INTG = 67, 66, 73
NOTE = ("gurobipy: a model accepts exactly the assignments within bounds and types that satisfy the constraints added "
        "and not removed; optimize() is exact at status 2, ObjBound is valid at every status with a solution, a run "
        "stopped by TimeLimit lasted that long; start values and Lazy flags do not change what is accepted")

CLS = ClassV('Model', None, ModuleV('gurobipy', {}), [])


class G:
    """per-run state of the solver model"""

    def __init__(self, it):
        self.it = it
        self.pt = it.ctx.bound('pt')
        self.vars = {}          # decl name -> (model ref id)
        self.points = []        # (Q, {var name: fn})
        self.opts = []          # fn(Q) facts instantiated at every point
        self.models = []
        self.groups = []        # (model, group name, value function)


def g_of(it):
    g = getattr(it, 'grb', None)
    if g is None:
        g = it.grb = G(it)
        it.ctx.assumptions.add(NOTE)
    return g


def install(it):
    it.ext['gurobipy'] = lambda it, name: gp_attr(it, name)
    it.grb_sum = False
    g_of(it)


class Names:
    def __init__(self, what, vals=None):
        self.what, self.vals = what, vals or {}

    def get_attr(self, it, name):
        if name in self.vals:
            return self.vals[name]
        if self.what == 'GRB' and name in ('Param', 'Attr', 'Status', 'Callback'):
            return Names(name, STATUS if name == 'Status' else None)
        if self.what == 'GRB':
            return Opaque('GRB.' + name)
        return name

    def same_as(self, o):
        return isinstance(o, Names) and o.what == self.what


STATUS = dict(LOADED=1, OPTIMAL=2, INFEASIBLE=3, INF_OR_UNBD=4, UNBOUNDED=5, CUTOFF=6, ITERATION_LIMIT=7,
              NODE_LIMIT=8, TIME_LIMIT=9, SOLUTION_LIMIT=10, INTERRUPTED=11)
GRBN = Names('GRB', dict(CONTINUOUS=CONT, BINARY=BIN, INTEGER=INTG, MAXIMIZE=-1, MINIMIZE=1,
                         INFINITY=Fraction(10) ** 100, LESS_EQUAL='<', EQUAL='=', GREATER_EQUAL='>', **STATUS))


def gp_attr(it, name):
    if name == 'GRB':
        return GRBN
    if name == 'Env':
        return Builtin('gp.Env', lambda it, a, k: Opaque('gurobi environment'))
    if name == 'Model':
        return Builtin('gp.Model', lambda it, a, k: new_model(it))
    if name == 'quicksum':
        return Builtin('gp.quicksum', lambda it, a, k: it.lib.bi_sum(it, a, {}))
    if name == 'GurobiError':
        from .interp import ExcType
        return ExcType('GurobiError')
    if name == 'LinExpr':
        return Builtin('gp.LinExpr', lambda it, a, k: a[0] if a else Fraction(0))
    return Opaque('gurobipy.' + name)


def new_model(it):
    f = dict(ok=True, bad=0, obj=Fraction(0), sense=1, solved=False, sol=0, status=1, has=False,
             objval=Fraction(0), objbound=Fraction(0))
    ref = it.new('obj', ObjC(CLS, f), CLS)
    g_of(it).models.append(ref)
    for nm, fn in METHODS.items():
        f[nm] = Builtin('Model.' + nm, lambda it, a, k, fn=fn: fn(it, ref, a, k))
    f['Params'] = Params(ref)
    it.st.heap[ref.id] = ObjC(CLS, f)
    return ref


class Params:
    def __init__(self, ref):
        self.ref = ref

    def set_attr(self, it, name, v):
        put(it, self.ref, 'param:' + name, v)

    def get_attr(self, it, name):
        f = it.st.heap[self.ref.id].fields
        if 'param:' + name in f:
            return f['param:' + name]
        raise Unsupported("default of a Gurobi parameter")

    def same_as(self, o):
        return isinstance(o, Params) and o.ref.id == self.ref.id


def get(it, ref, name):
    return it.st.heap[ref.id].fields.get(name, UNDEF)


def put(it, ref, name, v):
    it.st.heap[ref.id] = it.st.heap[ref.id].with_(name, v)


def arg(a, k, i, name, dflt=None):
    if len(a) > i:
        return a[i]
    return k.get(name, dflt)


def per(it, v, j):
    """scalar or container, element j"""
    if it.is_container(v) and not isinstance(v, str):
        c = it.content(v)
        if isinstance(c, Nd):
            return c.f(j)
        return seq_of(c).at(j)
    return v


def code(v):
    if isinstance(v, str):
        return {'C': CONT, 'B': BIN, 'I': INTG}.get(v, CONT)
    return v


def domain(it, t, lb, ub, vt):
    d = True
    if isinstance(lb, (int, Fraction)) and lb <= -10 ** 20:
        lb = None
    if isinstance(ub, (int, Fraction)) and ub >= 10 ** 20:
        ub = None
    if lb is not None:
        d = b_and(d, cmp_('<=', lb, t))
    if ub is not None:
        d = b_and(d, cmp_('<=', t, ub))
    if not isinstance(vt, (int, z3.ExprRef)):
        raise Unsupported("variable type")
    isbin = cmp_('==', vt, BIN)
    d = b_and(d, b_implies(isbin, b_or(cmp_('==', t, 0), cmp_('==', t, 1))))
    d = b_and(d, b_implies(cmp_('==', vt, INTG), z3.IsInt(t)))
    return d


def add_vars(it, ref, a, k, single=False):
    ctx = it.ctx
    g = g_of(it)
    if single:
        n = 1
        lb, ub, vt, nm = arg(a, k, 0, 'lb', 0), arg(a, k, 1, 'ub'), arg(a, k, 3, 'vtype', CONT), arg(a, k, 4, 'name', 'v')
    else:
        if len(a) != 1 or it.is_container(a[0]) and not is_numlike(a[0]):
            raise Unsupported("addVars over index sets")
        n = a[0]
        lb, ub, vt, nm = k.get('lb', 0), k.get('ub'), k.get('vtype', CONT), k.get('name', 'v')
    nm = nm if isinstance(nm, str) else 'v'
    f = ctx.fresh_fn('var_' + nm, [I, I], RS)
    j = ctx.bound('j')
    term = f(g.pt, j)
    g.vars[term.decl().name()] = ref
    g.groups.append((ref, nm, f))
    ctx.push(j, b_and(cmp_('<=', 0, j), cmp_('<', j, n)))
    try:
        d = domain(it, term, per(it, lb, j) if lb is not None else None, per(it, ub, j) if ub is not None else None,
                   code(per(it, vt, j)))
    finally:
        ctx.pop()
    if single:
        t0 = f(g.pt, z3.IntVal(0))
        put(it, ref, 'ok', b_and(get(it, ref, 'ok'), vsubst(d, [(j, z3.IntVal(0))])))
        return t0
    if d is not True:
        put(it, ref, 'ok', b_and(get(it, ref, 'ok'), quant(j, b_and(cmp_('<=', 0, j), cmp_('<', j, n)), T(d))))
    for Q, vals in g.points:
        if nm in vals:
            q = ctx.bound('j')
            t = f(Q, q)
            ctx.assume(z3.ForAll([q], t == R(vals[nm](q)), patterns=[t]))
    dct = Dct(lambda x: b_and(cmp_('<=', 0, x), cmp_('<', x, n)), lambda x: f(g.pt, IT(x)), Rng(n))
    return Frozen(GV(n, term, j), None, 'dict')


class GV(Dct):
    """tupledict of variables"""

    def __init__(self, n, term, j):
        self.n, self.term, self.j = n, term, j
        Dct.__init__(self, self._has, lambda x: z3.substitute(term, (j, IT(x))), Rng(n))

    def _has(self, x):
        if not is_numlike(x):
            return False
        return b_and(cmp_('<=', 0, x), cmp_('<', x, self.n))

    def csubst(self, pairs):
        return GV(vsubst(self.n, pairs), z3.substitute(self.term, *pairs), self.j)

    def merge_same(self, c, o):
        return GV(ite(c, self.n, o.n), z3.If(T(c), self.term, z3.substitute(o.term, (o.j, self.j))), self.j)

    def equal(self, o):
        """formula: the same variables"""
        return b_and(cmp_('==', self.n, o.n), self.term == z3.substitute(o.term, (o.j, self.j)))

    def same_as(self, o):
        if not isinstance(o, GV):
            return False
        from .loops import val_same
        t = z3.substitute(o.term, (o.j, self.j))
        return val_same(self.n, o.n) and self.term.eq(t)


def add_constr(it, ref, a, k):
    f = a[0]
    f = it.truth(f)
    return add_formula(it, ref, f)


def add_formula(it, ref, f):
    if it.grb_sum:
        put(it, ref, 'bad', arith('+', get(it, ref, 'bad'), ite(f, 0, 1)))
    else:
        put(it, ref, 'ok', b_and(get(it, ref, 'ok'), f))
    return f


def add_constrs(it, ref, a, k):
    s = it.iter_seq(a[0])
    n = s.n
    f = it.ctx.forall(n, lambda q: it.truth(s.at(q)))
    if it.grb_sum:
        raise Unsupported("addConstrs with removal")
    put(it, ref, 'ok', b_and(get(it, ref, 'ok'), f))
    return Frozen(Dct(lambda x: b_and(cmp_('<=', 0, x), cmp_('<', x, n)), lambda x: it.truth(s.at(x)), Rng(n)), None, 'dict')


def add_indicator(it, ref, a, k):
    z, val, f = arg(a, k, 0, 'binvar'), arg(a, k, 1, 'binval'), arg(a, k, 2, 'lhs')
    one = it.truth(val)
    return add_formula(it, ref, b_implies(cmp_('==', z, ite(one, 1, 0)), it.truth(f)))


def remove(it, ref, a, k):
    f = a[0]
    if not it.grb_sum:
        raise Unsupported("constraint removal")
    if it.is_container(f):
        raise Unsupported("removal of several constraints at once")
    put(it, ref, 'bad', arith('-', get(it, ref, 'bad'), ite(it.truth(f), 0, 1)))
    return None


def set_objective(it, ref, a, k):
    put(it, ref, 'obj', toreal(arg(a, k, 0, 'expr')))
    s = arg(a, k, 1, 'sense')
    if s is not None:
        put(it, ref, 'sense', s)
    return None


def set_param(it, ref, a, k):
    nm = a[0]
    if not isinstance(nm, str):
        raise Unsupported("parameter name")
    put(it, ref, 'param:' + nm.split('.')[-1], a[1])
    return None


def accept_at(it, ref, w):
    """the assignment w is accepted by the model in its present state"""
    g = g_of(it)
    a = b_and(get(it, ref, 'ok'), cmp_('==', get(it, ref, 'bad'), 0))
    return vsubst(a, [(g.pt, w)])


def obj_at(it, ref, w):
    return vsubst(get(it, ref, 'obj'), [(g_of(it).pt, w)])


def optimize(it, ref, a, k):
    ctx = it.ctx
    g = g_of(it)
    Q = ctx.fresh('sol', I)
    st = ctx.fresh('status', I)
    val, bnd = ctx.fresh('ObjVal', RS), ctx.fresh('ObjBound', RS)
    tl = get(it, ref, 'param:TimeLimit')
    limited = tl is not UNDEF
    has = b_or(st == 2, b_and(b_or(st == 9, st == 11), ctx.fresh('incumbent', B)))
    ctx.assume(b_or(st == 2, st == 3, st == 11, *([st == 9] if limited else [])))
    sense = get(it, ref, 'sense')
    le = lambda x, y: b_ite(cmp_('==', sense, -1), cmp_('<=', x, y), cmp_('>=', x, y))
    acc = accept_at(it, ref, Q)
    ctx.assume(b_implies(has, b_and(acc, cmp_('==', val, obj_at(it, ref, Q)))))
    ctx.assume(b_implies(st == 2, val == bnd))
    gd = list(ctx.guard)
    saved = it.st.heap[ref.id]

    def fact(w):
        cur = it.st
        it.st = cur.copy()
        it.st.heap[ref.id] = saved
        try:
            return b_and(b_implies(b_and(has, accept_at(it, ref, w)), le(obj_at(it, ref, w), bnd)),
                         b_implies(st == 3, b_not(accept_at(it, ref, w))))
        finally:
            it.st = cur
    fact(Q)
    ctx.assume(b_implies(has, le(val, bnd)))
    for w, _ in g.points:
        ctx.assume(fact(w))
    g.opts.append((gd, fact))
    if it.st.heap.get('clock') is not None or limited:
        c0 = it.st.heap.get('clock')
        c1 = it.lib.clock(it)
        if limited and c0 is not None:
            ctx.assume(b_implies(st == 9, cmp_('>=', arith('-', c1, c0), tl)))
    f = it.st.heap[ref.id]
    for nm, v in (('solved', True), ('sol', Q), ('status', st), ('has', has), ('objval', val), ('objbound', bnd)):
        f = f.with_(nm, v)
    it.st.heap[ref.id] = f
    return None


def need_solution(it, ref, what):
    h = get(it, ref, 'has')
    if h is True:
        return
    if h is False:
        it.raise_exc('AttributeError', what)
    it.cond_raise(b_not(h), 'AttributeError')


def model_attr(it, ref, name):
    n = name.lower()
    if n == 'status':
        return get(it, ref, 'status')
    if n == 'objval':
        need_solution(it, ref, name)
        return get(it, ref, 'objval')
    if n in ('objbound', 'objboundc'):
        return get(it, ref, 'objbound')
    if n == 'modelsense':
        return get(it, ref, 'sense')
    if n == 'solcount':
        c = it.ctx.fresh('SolCount', I)
        it.ctx.assume(b_and(cmp_('<=', 0, c), T(cmp_('>', c, 0)) == T(get(it, ref, 'has'))))
        return c
    if n in ('runtime', 'mipgap', 'nodecount', 'numvars', 'numconstrs', 'itercount'):
        return it.ctx.fresh(name, RS)
    raise Unsupported("Gurobi model attribute " + name)


def get_attr(it, ref, a, k):
    nm = a[0]
    if not isinstance(nm, str):
        raise Unsupported("attribute name")
    return model_attr(it, ref, nm.split('.')[-1])


def model_missing(it, ref, name):
    return model_attr(it, ref, name)


def nothing(it, ref, a, k):
    return None


METHODS = dict(addVars=lambda it, r, a, k: add_vars(it, r, a, k), addVar=lambda it, r, a, k: add_vars(it, r, a, k, True),
               addConstr=add_constr, addConstrs=add_constrs, addLConstr=add_constr,
               addGenConstrIndicator=add_indicator, remove=remove, setObjective=set_objective,
               setParam=set_param, optimize=optimize, getAttr=get_attr, update=nothing, write=nothing,
               dispose=nothing)


# ------------------------------------------------------------------ attributes of variables and constraints
def is_var(it, t):
    g = getattr(it, 'grb', None)
    if g is None or not is_sym(t) or not z3.is_app(t):
        return None
    return g.vars.get(t.decl().name())


def term_attr(it, t, name):
    """attribute of a z3 term that is a variable; None when it is not one"""
    ref = is_var(it, t)
    if ref is None:
        return None
    if name in ('X', 'x'):
        return var_value(it, ref, t)
    if name == 'getAttr':
        def ga(it, a, k):
            nm = a[0].split('.')[-1] if isinstance(a[0], str) else None
            if nm in ('X', 'x'):
                return var_value(it, ref, t)
            raise Unsupported("variable attribute")
        return Builtin('Var.getAttr', ga)
    raise Unsupported("variable attribute " + name)


def var_value(it, ref, t):
    need_solution(it, ref, 'X')
    return z3.substitute(t, (g_of(it).pt, get(it, ref, 'sol')))


def set_term_attr(it, t, name, v):
    """assignment to an attribute of a variable or constraint; False when t is neither"""
    ref = is_var(it, t)
    if ref is not None:
        n = name.lower()
        if n == 'start':
            d = get(it, ref, 'starts')
            if d is UNDEF:
                d = it.new_dict(DLit({}))
                put(it, ref, 'starts', d)
            idx = t.arg(t.num_args() - 1)
            grp = t.decl().name()
            one = getattr(it.grb, 'start_group', None)
            if one is not None and one != grp:
                raise Unsupported("start values on two groups of variables")
            it.grb.start_group = grp
            it.lib.setitem(it, d, idx, v)
            return True
        if n == 'ub':
            add_formula(it, ref, cmp_('<=', t, v))
            return True
        if n == 'lb':
            add_formula(it, ref, cmp_('>=', t, v))
            return True
        if n in ('branchpriority', 'varname', 'vhintval', 'vhintpri'):
            return True
        raise Unsupported("variable attribute " + name)
    if is_boolv(t):
        if name in ('Lazy', 'lazy', 'ConstrName'):
            return True
        raise Unsupported("constraint attribute " + name)
    return False


# ------------------------------------------------------------------ points chosen by a contract
def point(it, **vals):
    """an assignment with the given values per variable group name (before the model is built)"""
    g = g_of(it)
    Q = it.ctx.fresh('point', I)
    g.points.append((Q, vals))
    return Q


def values(it, ref, name, Q):
    """values of the variables of a group in the assignment Q; None when the model has no such group"""
    fs = [f for r, nm, f in g_of(it).groups if r.id == ref.id and nm == name]
    if len(fs) != 1:
        return None
    return lambda j: fs[0](Q, IT(j))
