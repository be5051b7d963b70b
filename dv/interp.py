"""Symbolic executor for the Python functions of the repository."""
import ast
import os
from fractions import Fraction
import z3
from .core import *
from .seqs import *
from . import core

REPO = os.environ.get('DV_REPO', '/repo')


class FuncV:
    def __init__(self, node, module, cls=None, name=None, env=None, defaults=None):
        self.node, self.module, self.cls = node, module, cls
        self.name = name or getattr(node, 'name', '<lambda>')
        self.env = env
        self.kind = 'function'
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name) and d.id == 'staticmethod':
                self.kind = 'static'
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                self.kind = 'class'
            else:
                self.kind = 'unsupported'

    @property
    def qual(self):
        return (self.cls.name + '.' if self.cls else self.module.short + '.') + self.name


class BoundV:
    def __init__(self, func, recv):
        self.func, self.recv = func, recv


class ClassV:
    def __init__(self, name, node, module, bases):
        self.name, self.node, self.module, self.bases = name, node, module, bases
        self.members = {}
        self.ref = None      # heap object for class-level attributes

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def lookup(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()


class ModuleV:
    def __init__(self, name, env):
        self.name, self.env = name, env
        self.short = name.split('.')[-1]


class ExtModule:
    def __init__(self, name):
        self.name = name


class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class MethodV:
    """method of a built-in container"""

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SuperV:
    def __init__(self, cls, recv):
        self.cls, self.recv = cls, recv


class ExcV:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


EXC_PARENT = {'ZeroDivisionError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'KeyError': 'LookupError',
              'IndexError': 'LookupError', 'LookupError': 'Exception', 'ValueError': 'Exception',
              'TypeError': 'Exception', 'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError',
              'RuntimeError': 'Exception', 'FileNotFoundError': 'OSError', 'OSError': 'Exception',
              'AttributeError': 'Exception', 'Exception': 'BaseException', 'KeyboardInterrupt': 'BaseException',
              'StopIteration': 'Exception', 'BaseException': None}


class ExcType:
    def __init__(self, name):
        self.name = name

    def covers(self, name):
        while name is not None:
            if name == self.name:
                return True
            name = EXC_PARENT.get(name)
        return False


class State:
    __slots__ = ('env', 'heap')

    def __init__(self, env, heap):
        self.env, self.heap = env, heap

    def copy(self):
        return State(dict(self.env), dict(self.heap))


class Exit:
    __slots__ = ('cond', 'kind', 'value', 'st')

    def __init__(self, cond, kind, value, st):
        self.cond, self.kind, self.value, self.st = cond, kind, value, st


class Frame:
    def __init__(self, func, g0):
        self.func, self.g0 = func, g0
        self.cut = False
        self.exits = []


class Loader:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.sources = {}
        self.files = set()

    def load(self, it, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, *name.split('.')) + '.py'
        if not os.path.exists(path):
            m = ExtModule(name)
            self.modules[name] = m
            return m
        src = open(path).read()
        self.sources[name] = src
        self.files.add(os.path.relpath(path, self.root))
        tree = ast.parse(src)
        env = {}
        m = ModuleV(name, env)
        self.modules[name] = m
        for st in tree.body:
            self.top(it, m, st)
        return m

    def top(self, it, m, st):
        env = m.env
        if isinstance(st, ast.Import):
            for a in st.names:
                env[(a.asname or a.name.split('.')[0])] = ExtModule(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            sub = self.load(it, st.module)
            for a in st.names:
                if isinstance(sub, ModuleV):
                    if a.name in sub.env:
                        env[a.asname or a.name] = sub.env[a.name]
                    else:
                        env[a.asname or a.name] = self.load(it, st.module + '.' + a.name)
                else:
                    env[a.asname or a.name] = it.ext_attr(sub, a.name)
        elif isinstance(st, ast.FunctionDef):
            env[st.name] = FuncV(st, m)
        elif isinstance(st, ast.ClassDef):
            bases = []
            for b in st.bases:
                v = env.get(b.id) if isinstance(b, ast.Name) else None
                if v is not None:
                    bases.append(v)
            c = ClassV(st.name, st, m, bases)
            env[st.name] = c
            for x in st.body:
                if isinstance(x, ast.FunctionDef):
                    c.members[x.name] = FuncV(x, m, c)
                elif isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    c.members[x.targets[0].id] = ('static', x.value, m)
                elif isinstance(x, ast.AnnAssign) and x.value is not None:
                    c.members[x.target.id] = ('static', x.value, m)
        elif isinstance(st, (ast.Assign,)):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    env[t.id] = ('lazy', st.value, m)
        # other top-level statements (docstrings, guards) are dropped


def no_undef(v):
    """a choice between two undefined values is undefined"""
    if not isinstance(v, IteV):
        return v
    a, b = no_undef(v.a), no_undef(v.b)
    if a is UNDEF and b is UNDEF:
        return UNDEF
    return v if a is v.a and b is v.b else IteV(v.c, a, b)


class Interp:
    def __init__(self, ctx, loader=None):
        from . import lib, loops
        self.ctx = ctx
        self.loader = loader or Loader()
        self.heap0 = {}
        self.st = State({}, {})
        self.frames = []
        self.perms = []           # permutations met: (n, sig, inv)
        self.summaries = {}       # qualified name -> fn(it, args, kwargs) used instead of the body
        self.executed = set()     # functions whose bodies were executed
        self.contracts_used = set()
        self.loop_spec = None     # fn(it, stmt, seq) -> hoare.Spec for loops decided by a given invariant
        self.loop_inv = None      # fn(it, loopinfo) -> [(name, formula)] for unresolved loops
        self.depth = 0
        self.lib = lib
        self.loops = loops
        self.notes = []
        self.sym_unroll = 4
        self.module_env = None
        self.trace = []
        self.ext = {}
        self.written = []

    # ------------------------------------------------------------ heap
    def new(self, kind, content, cls=None):
        r = Ref(kind, cls)
        self.st.heap[r.id] = content
        return r

    def new_list(self, seq):
        return self.new('list', seq)

    def new_nd(self, nd):
        return self.new('nd', nd)

    def new_dict(self, d):
        return self.new('dict', d)

    def content(self, v):
        if isinstance(v, Ref):
            return self.st.heap[v.id]
        if isinstance(v, Frozen):
            return v.content
        if isinstance(v, tuple):
            return Lit(v)
        if isinstance(v, IteV):
            return content_ite(v.c, self.content(v.a), self.content(v.b))
        if isinstance(v, str):
            return Lit(list(v))
        raise Unsupported("container expected, got %s" % (type(v).__name__,))

    def is_container(self, v):
        return (isinstance(v, Ref) and v.kind in ('list', 'nd', 'dict', 'set')) or isinstance(v, (Frozen, tuple)) \
            or (isinstance(v, IteV) and self.is_container(v.a) and self.is_container(v.b))

    def set_content(self, v, c):
        if isinstance(v, Ref):
            self.st.heap[v.id] = c
            return
        if isinstance(v, Frozen) and v.origin is not None:
            cont, key, base = v.origin
            cur = self.content(cont)
            if base is not cur:
                raise Unsupported("in-place update of an element through a stale reference")
            if isinstance(cont, Ref) and getattr(cont, 'view', False):
                raise Unsupported("in-place update through a view")
            if getattr(cur, 'shared', False):
                raise Unsupported("in-place update of a possibly shared element")
            fr = Frozen(c)
            if isinstance(cur, Nd):
                raise Unsupported("in-place update of a row view")
            if isinstance(cur, Dct):
                new = DStore(cur, key, fr)
            else:
                new = Store(cur, key, fr)
            self.set_content(cont, new)
            v.content = c
            v.origin = (cont, key, new)
            return
        raise Unsupported("in-place update of a value that may be shared")

    def kind(self, v):
        if isinstance(v, Ref):
            return v.kind
        if isinstance(v, Frozen):
            if v.kind:
                return v.kind
            c = v.content
            if isinstance(c, Nd):
                return 'nd'
            if isinstance(c, Dct):
                return 'dict'
            if isinstance(c, SetC):
                return 'set'
            if isinstance(c, Rng):
                return 'range'
            if isinstance(c, ObjC):
                return 'obj'
            return 'list'
        if isinstance(v, tuple):
            return 'tuple'
        if isinstance(v, (str, StrV)):
            return 'str'
        if isinstance(v, IteV):
            ka, kb = self.kind(v.a), self.kind(v.b)
            if ka == kb:
                return ka
            return 'mixed'
        if is_boolv(v):
            return 'bool'
        if is_numlike(v):
            return 'float' if is_realv(v) else 'int'
        if v is None:
            return 'none'
        return type(v).__name__

    def freeze(self, v, seen=()):
        """by-value snapshot of a mutable value"""
        if isinstance(v, Ref):
            if v.kind in ('list', 'nd', 'dict', 'set'):
                return Frozen(self.freeze_content(self.st.heap[v.id]), None, v.kind)
            return v
        if isinstance(v, tuple):
            return tuple(self.freeze(x) for x in v)
        if isinstance(v, Frozen) and v.origin is not None:
            return Frozen(v.content, None, v.kind)
        if isinstance(v, IteV):
            return ite(v.c, self.freeze(v.a), self.freeze(v.b))
        return v

    def freeze_content(self, c):
        if isinstance(c, Lit):
            return Lit([self.freeze(x) for x in c.items])
        if isinstance(c, Concat):
            return Concat(self.freeze_content(c.a), self.freeze_content(c.b))
        if isinstance(c, Store):
            return Store(self.freeze_content(c.base), c.i, self.freeze(c.v))
        if isinstance(c, IteSeq):
            return IteSeq(c.c, self.freeze_content(c.a), self.freeze_content(c.b))
        if isinstance(c, Del):
            return Del(self.freeze_content(c.base), c.i)
        if isinstance(c, DLit):
            return DLit({k: self.freeze(x) for k, x in c.items.items()})
        if isinstance(c, DStore):
            return DStore(self.freeze_content(c.base), c.key, self.freeze(c.v))
        if isinstance(c, DIte):
            return DIte(c.c, self.freeze_content(c.a), self.freeze_content(c.b))
        return c

    # ------------------------------------------------------------ fresh structured values
    def fresh_list(self, name, n=None, elem=None, sort=I, lo=0, hi=None):
        """content of a fresh list; elem(k) gives its elements"""
        ctx = self.ctx
        if n is None:
            n = ctx.fresh(name + '_len', I)
            ctx.assume(n >= 0)
        if elem is None:
            f = ctx.fresh_fn(name, [I], sort)
            elem = f
        return Fn(n, lambda k: elem(IT(k) if not isinstance(k, int) else z3.IntVal(k)))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, BoundV):
            return self.call(f.func, [f.recv] + list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, MethodV):
            return self.lib.call_method(self, f.recv, f.name, args, kwargs)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExcType):
            return ExcV(f.name, tuple(args))
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs)
        if isinstance(f, IteV):
            return self.lift2(f, lambda g: self.call(g, args, kwargs))
        m = getattr(f, 'call', None)
        if m is not None:
            return m(self, args, kwargs)
        if isinstance(f, Ref) and f.kind == 'obj':
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        raise Unsupported("call of %s" % (f,))

    def lift2(self, v, fn):
        """evaluate fn on both sides of an IteV with proper state merging"""
        return self.branch(v.c, lambda: fn(v.a), lambda: fn(v.b))

    def branch(self, c, fa, fb):
        ctx = self.ctx
        s0 = self.st
        sa = s0.copy()
        self.st = sa
        g = len(ctx.guard)
        ctx.guard.append(c)
        da = db = False
        try:
            va = fa()
        except DeadPath:
            da = True
        del ctx.guard[g:]
        sa = self.st
        self.st = s0.copy()
        ctx.guard.append(b_not(c))
        try:
            vb = fb()
        except DeadPath:
            db = True
        del ctx.guard[g:]
        sb = self.st
        if da and db:
            ctx.guard.append(False)
            raise DeadPath()
        if da:
            ctx.guard.append(b_not(c))
            return vb
        if db:
            self.st = sa
            ctx.guard.append(c)
            return va
        self.st = self.merge(c, sa, sb)
        return self.vite(c, va, vb)

    def vite(self, c, a, b):
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id != b.id and a.kind == b.kind \
                and a.kind in ('list', 'nd', 'dict', 'set'):
            return IteV(c, a, b)
        return ite(c, a, b)

    def merge(self, c, sa, sb):
        env = {}
        for k in list(sa.env) + [k for k in sb.env if k not in sa.env]:
            a, b = sa.env.get(k, UNDEF), sb.env.get(k, UNDEF)
            env[k] = a if a is b else self.vite(c, a, b)
        heap = {}
        for k in list(sa.heap) + [k for k in sb.heap if k not in sa.heap]:
            if k not in sa.heap:
                heap[k] = sb.heap[k]
            elif k not in sb.heap:
                heap[k] = sa.heap[k]
            else:
                a, b = sa.heap[k], sb.heap[k]
                heap[k] = a if a is b else content_ite(c, a, b)
        return State(env, heap)

    def instantiate(self, cls, args, kwargs):
        if cls.name in self.summaries:
            self.contracts_used.add(cls.name)
            return self.summaries[cls.name](self, args, kwargs)
        r = self.new('obj', ObjC(cls, {}), cls)
        init, _ = cls.lookup('__init__')
        if init is not None:
            self.call_func(init, [r] + list(args), kwargs)
        elif args or kwargs:
            raise Unsupported("constructor arguments without __init__")
        return r

    def bind(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in getattr(a, 'posonlyargs', [])] + [x.arg for x in a.args]
        env = {}
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_exc('TypeError', 'too many arguments for %s' % f.name)
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env:
                    self.raise_exc('TypeError', 'duplicate argument %s' % k)
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.raise_exc('TypeError', 'unexpected argument %s of %s' % (k, f.name))
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.new_dict(DLit(extra))
        dflt = list(zip(names[len(names) - len(a.defaults):], a.defaults)) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for n, d in dflt:
            if n not in env:
                env[n] = self.eval_static(d, f.module)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in env:
                self.raise_exc('TypeError', 'missing argument %s of %s' % (n, f.name))
        return env

    def eval_static(self, node, module):
        st, frames = self.st, self.frames
        self.st = State({}, st.heap)
        self.frames = frames + [Frame(FuncV(ast.parse('lambda: 0').body[0].value, module), len(self.ctx.guard))]
        try:
            return self.eval(node)
        finally:
            self.st = State(st.env, self.st.heap)
            self.frames = frames

    def call_func(self, f, args, kwargs):
        if f.kind == 'unsupported':
            raise Unsupported("decorated function " + f.name)
        q = f.qual
        if f.node is not None and q in self.summaries:
            self.contracts_used.add(q)
            return self.summaries[q](self, list(args), dict(kwargs))
        if self.depth > 25:
            raise Unsupported("call depth")
        for fr in self.frames:
            if fr.func.node is f.node and not isinstance(f.node, ast.Lambda):
                raise Unsupported("recursion in " + f.name)
        ctx = self.ctx
        env = self.bind(f, args, kwargs)
        self.executed.add(q)
        caller = self.st
        if f.env is not None:
            env = {**f.env, **env}
        self.st = State(env, caller.heap)
        fr = Frame(f, len(ctx.guard))
        self.frames.append(fr)
        self.depth += 1
        pos = ctx.pos
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.eval(f.node.body)
                self.st = State(caller.env, self.st.heap)
                return v
            alive = self.exec_block(f.node.body)
            if alive:
                fr.exits.append(Exit(b_and(*ctx.guard[fr.g0:]), 'return', None, self.st))
        finally:
            self.frames.pop()
            self.depth -= 1
            del ctx.guard[fr.g0:]
            ctx.pos = pos
        rets = [e for e in fr.exits if e.kind == 'return']
        for e in fr.exits:
            if e.kind == 'raise':
                if not self.frames:
                    self.top_raises.append(e)
                else:
                    self.frames[-1].exits.append(Exit(b_and(*(ctx.guard[self.frames[-1].g0:] + [e.cond])), 'raise',
                                                      e.value, State(caller.env, e.st.heap)))
        if not rets:
            ctx.guard.append(False)
            self.st = State(caller.env, self.st.heap)
            raise DeadPath()
        nraise = [e for e in fr.exits if e.kind == 'raise']
        val, heap = rets[-1].value, rets[-1].st
        for e in reversed(rets[:-1]):
            m = self.merge(e.cond, State({}, e.st.heap), State({}, heap.heap))
            val = self.vite(e.cond, e.value, val)
            heap = m
        self.st = State(caller.env, heap.heap)
        if fr.cut:
            # a loop was abstracted by its invariant: the caller goes on only where the function returned
            if self.frames:
                self.frames[-1].cut = True
            ctx.guard.append(b_or(*[e.cond for e in rets]))
        elif nraise:
            ctx.guard.append(b_not(b_or(*[e.cond for e in nraise])))
        return val

    top_raises = []

    def raise_exc(self, name, what='', value=None):
        """raise under the current guard; afterwards the path is dead"""
        ctx = self.ctx
        e = Exit(b_and(*ctx.guard[self.frames[-1].g0:]) if self.frames else True, 'raise',
                 value or ExcV(name, (what,)), self.st)
        if self.frames:
            self.frames[-1].exits.append(e)
        else:
            self.top_raises.append(e)
        ctx.guard.append(False)
        raise DeadPath()

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts):
        """returns False when no path falls through"""
        for s in stmts:
            try:
                if not self.exec_stmt(s):
                    return False
            except DeadPath:
                return False
            if any(g is False for g in self.ctx.guard):
                return False
        return True

    def exec_stmt(self, s):
        ctx = self.ctx
        ctx.pos = "%s:%d" % (self.frames[-1].func.qual if self.frames else '?', getattr(s, 'lineno', 0))
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        r = m(s)
        return True if r is None else r

    def st_Pass(self, s):
        pass

    def st_Import(self, s):
        for a in s.names:
            self.st.env[a.asname or a.name] = ExtModule(a.name)

    def st_ImportFrom(self, s):
        sub = self.loader.load(self, s.module)
        for a in s.names:
            if isinstance(sub, ModuleV):
                self.st.env[a.asname or a.name] = sub.env[a.name]
            else:
                self.st.env[a.asname or a.name] = self.ext_attr(sub, a.name)

    def st_Global(self, s):
        raise Unsupported("global")

    def st_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def st_FunctionDef(self, s):
        self.st.env[s.name] = FuncV(s, self.frames[-1].func.module, None, s.name, self.st.env)

    def st_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def st_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def st_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            cur = self.eval(ast.Name(id=t.id, ctx=ast.Load()))
            v = self.eval(s.value)
            if self.kind(cur) == 'list' and op == 'Add':
                self.lib.list_extend(self, cur, v)
                return
            if self.kind(cur) == 'nd' and isinstance(cur, (Ref, Frozen)):
                self.lib.nd_inplace(self, cur, op, v)
                return
            r = self.inplace(op, cur, v)
            self.assign(t, r)
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            cur = self.getattr(obj, t.attr)
            v = self.eval(s.value)
            if self.kind(cur) == 'list' and op == 'Add':
                self.lib.list_extend(self, cur, v)
                return
            if self.kind(cur) == 'nd' and isinstance(cur, (Ref, Frozen)):
                self.lib.nd_inplace(self, cur, op, v)
                return
            self.setattr(obj, t.attr, self.inplace(op, cur, v))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            idx = self.eval_index(t.slice)
            cur = self.lib.getitem(self, obj, idx)
            v = self.eval(s.value)
            if self.kind(cur) == 'list' and op == 'Add':
                self.lib.list_extend(self, cur, v)
                return
            if self.kind(cur) == 'nd' and self.kind(obj) != 'nd':
                self.lib.nd_inplace(self, cur, op, v)
                return
            self.lib.setitem(self, obj, idx, self.binop(op, cur, v))
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, op, cur, v):
        return self.binop(op, cur, v)

    def st_Return(self, s):
        v = self.eval(s.value) if s.value is not None else None
        fr = self.frames[-1]
        fr.exits.append(Exit(b_and(*self.ctx.guard[fr.g0:]), 'return', v, self.st))
        return False

    def st_Break(self, s):
        fr = self.frames[-1]
        fr.exits.append(Exit(b_and(*self.ctx.guard[fr.g0:]), 'break', None, self.st))
        return False

    def st_Continue(self, s):
        fr = self.frames[-1]
        fr.exits.append(Exit(b_and(*self.ctx.guard[fr.g0:]), 'continue', None, self.st))
        return False

    def st_Raise(self, s):
        if s.exc is None:
            v = self.current_exc if getattr(self, 'current_exc', None) is not None else ExcV('RuntimeError')
        else:
            v = self.eval(s.exc)
            if isinstance(v, ExcType):
                v = ExcV(v.name)
        if not isinstance(v, ExcV):
            raise Unsupported("raise of a non-exception")
        self.raise_exc(v.name, value=v)

    def st_Assert(self, s):
        ctx = self.ctx
        c = self.truth(self.eval(s.test))
        if self.assert_mode == 'raise':
            if c is True:
                return
            self.cond_raise(b_not(c), 'AssertionError')
            return
        ctx.oblige("assert in %s: %s" % (self.frames[-1].func.qual, ast.unparse(s.test)[:80]), c)
        if c is False:
            return False

    assert_mode = 'oblige'

    def cond_raise(self, c, name):
        """the path splits: under c the exception is raised"""
        fr = self.frames[-1]
        fr.exits.append(Exit(b_and(*(self.ctx.guard[fr.g0:] + [c])), 'raise', ExcV(name), self.st.copy()))
        self.ctx.guard.append(b_not(c))

    def st_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value)
                self.lib.delitem(self, obj, self.eval_index(t.slice))
            elif isinstance(t, ast.Name):
                self.st.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def st_If(self, s):
        ctx = self.ctx
        c = self.truth(self.eval(s.test))
        c = self.decide(c)
        if c is True:
            return self.exec_block(s.body)
        if c is False:
            return self.exec_block(s.orelse)
        s0 = self.st
        g = len(ctx.guard)
        self.st = s0.copy()
        ctx.guard.append(c)
        a_alive = self.exec_block(s.body)
        ga = b_and(*ctx.guard[g + 1:])
        del ctx.guard[g:]
        sa = self.st
        self.st = s0.copy()
        ctx.guard.append(b_not(c))
        b_alive = self.exec_block(s.orelse)
        gb = b_and(*ctx.guard[g + 1:])
        del ctx.guard[g:]
        sb = self.st
        if a_alive and b_alive:
            self.st = self.merge(c, sa, sb)
            if ga is not True or gb is not True:
                ctx.guard.append(b_ite(c, ga, gb))
            return True
        if a_alive:
            self.st = sa
            ctx.guard.extend([c] + ([ga] if ga is not True else []))
            return True
        if b_alive:
            self.st = sb
            ctx.guard.extend([b_not(c)] + ([gb] if gb is not True else []))
            return True
        return False

    def decide(self, c):
        if isinstance(c, bool):
            return c
        c2 = z3.simplify(c)
        if z3.is_true(c2):
            return True
        if z3.is_false(c2):
            return False
        for g in self.ctx.guard:
            if is_sym(g):
                if g.eq(c):
                    return True
                if b_not(g) is not True and is_sym(b_not(g)) and b_not(g).eq(c):
                    return False
        for known, val in self.known_conds:
            if known.eq(c) or known.eq(c2):
                return val
        return c

    known_conds = ()

    def st_For(self, s):
        it = self.eval(s.iter)
        seq = self.iter_seq(it)
        return self.loops.exec_for(self, s, seq)

    def st_While(self, s):
        return self.loops.exec_while(self, s)

    def st_With(self, s):
        for i in s.items:
            v = self.eval(i.context_expr)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v)
        return self.exec_block(s.body)

    def st_Try(self, s):
        ctx = self.ctx
        fr = self.frames[-1]
        if s.orelse:
            raise Unsupported("try/else")
        n0 = len(fr.exits)
        # handlers that only re-raise leave assertion obligations in place
        reraise = all(h.body and isinstance(h.body[-1], ast.Raise) and h.body[-1].exc is None
                      for h in s.handlers)
        mode = self.assert_mode
        if not reraise and any(self.handler_covers(h, 'AssertionError') for h in s.handlers):
            self.assert_mode = 'raise'
        g = len(ctx.guard)
        try:
            alive = self.exec_block(s.body)
        finally:
            self.assert_mode = mode
        new = fr.exits[n0:]
        raised = [e for e in new if e.kind == 'raise']
        gbody = b_and(*ctx.guard[g:])
        del ctx.guard[g:]
        outs = []
        if alive:
            outs.append((gbody, self.st))
        keep = [e for e in new if e.kind != 'raise']
        fr.exits[n0:] = keep
        pre = b_and(*ctx.guard[fr.g0:])
        for e in raised:
            h = next((h for h in s.handlers if self.handler_covers(h, e.value.name)), None)
            if h is None:
                fr.exits.append(e)
                continue
            self.st = e.st.copy()
            ctx.guard.append(e.cond)
            old = getattr(self, 'current_exc', None)
            self.current_exc = e.value
            if h.name:
                self.st.env[h.name] = e.value
            al = self.exec_block(h.body)
            self.current_exc = old
            gg = b_and(*ctx.guard[g:])
            del ctx.guard[g:]
            if al:
                outs.append((gg, self.st))
        if not outs:
            al = False
        else:
            st = outs[-1][1]
            for c, o in reversed(outs[:-1]):
                st = self.merge(c, o, st)
            self.st = st
            tot = b_or(*[c for c, _ in outs])
            if tot is not True and not (len(outs) == 1 and outs[0][0] is True):
                if raised or not alive:
                    ctx.guard.append(tot)
                elif outs[0][0] is not True:
                    ctx.guard.append(outs[0][0])
            al = True
        if s.finalbody:
            al2 = self.exec_block(s.finalbody)
            al = al and al2
        return al

    def handler_covers(self, h, name):
        if h.type is None:
            return True
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in types:
            v = self.eval(t)
            if isinstance(v, ExcType) and v.covers(name):
                return True
            if not isinstance(v, ExcType):
                raise Unsupported("exception type")
        return False

    # ------------------------------------------------------------ assignment
    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs):
                self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            self.lib.setitem(self, obj, self.eval_index(t.slice), v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n:
                self.raise_exc('ValueError', 'unpack')
            return v
        if isinstance(v, IteV):
            a, b = self.unpack(v.a, n), self.unpack(v.b, n)
            return tuple(self.vite(v.c, x, y) for x, y in zip(a, b))
        c = self.content(v)
        s = seq_of(c)
        if not isinstance(s.n, int):
            self.ctx.oblige("unpacking %d values" % n, cmp_('==', s.n, n))
        elif s.n != n:
            self.raise_exc('ValueError', 'unpack')
        return tuple(self.lib.elem(self, v, c, k) for k in range(n))

    def setattr(self, obj, name, v):
        if isinstance(obj, Ref) and obj.kind == 'obj':
            self.st.heap[obj.id] = self.st.heap[obj.id].with_(name, v)
        elif isinstance(obj, ClassV):
            self.set_class_attr(obj, name, v)
        elif isinstance(obj, IteV):
            self.branch(obj.c, lambda: self.setattr(obj.a, name, v), lambda: self.setattr(obj.b, name, v))
        else:
            m = getattr(obj, 'set_attr', None)
            if m is None and (is_sym(obj) or is_boolv(obj)) and getattr(self, 'grb', None) is not None:
                from . import grb
                if grb.set_term_attr(self, obj, name, v):
                    return
            if m is None:
                raise Unsupported("attribute assignment on %s" % type(obj).__name__)
            m(self, name, v)

    def class_ref(self, cls):
        if cls.ref is None:
            cls.ref = Ref('classobj', cls)
        if cls.ref.id not in self.st.heap:
            self.st.heap[cls.ref.id] = ObjC(cls, {})
        return cls.ref

    def set_class_attr(self, cls, name, v):
        r = self.class_ref(cls)
        self.st.heap[r.id] = self.st.heap[r.id].with_(name, v)

    def class_attr(self, cls, name):
        """(found, value) of a class-level attribute along the mro"""
        for c in cls.mro():
            r = self.class_ref(c)
            f = self.st.heap[r.id].fields
            if name in f:
                return True, f[name]
            if name in c.members:
                m = c.members[name]
                if isinstance(m, tuple) and m[0] == 'static':
                    v = self.eval_static(m[1], m[2])
                    self.set_class_attr(c, name, v)
                    return True, v
                return True, m
        return False, None

    def getattr(self, obj, name):
        if isinstance(obj, IteV):
            return self.lift2(obj, lambda o: self.getattr(o, name))
        if isinstance(obj, Ref) and obj.kind == 'obj':
            c = self.st.heap[obj.id]
            if name in c.fields:
                v = c.fields[name]
                if v is UNDEF:
                    self.raise_exc('AttributeError', name)
                return v
            if name == '__class__':
                return c.cls
            if name == '__dict__':
                return ('__dict__', obj)
            ok, m = self.class_attr(c.cls, name)
            if not ok:
                if c.cls.name == 'Model' and getattr(self, 'grb', None) is not None:
                    from . import grb
                    return grb.model_missing(self, obj, name)
                self.raise_exc('AttributeError', '%s.%s' % (c.cls.name, name))
            if isinstance(m, FuncV):
                if m.kind == 'static':
                    return m
                if m.kind == 'class':
                    return BoundV(m, c.cls)
                return BoundV(m, obj)
            return m
        if isinstance(obj, ClassV):
            ok, m = self.class_attr(obj, name)
            if not ok:
                if name == '__name__':
                    return obj.name
                self.raise_exc('AttributeError', name)
            if isinstance(m, FuncV) and m.kind == 'class':
                return BoundV(m, obj)
            return m
        if isinstance(obj, SuperV):
            mro = self.st.heap[obj.recv.id].cls.mro() if isinstance(obj.recv, Ref) else obj.cls.mro()
            i = mro.index(obj.cls)
            for c in mro[i + 1:]:
                if name in c.members:
                    m = c.members[name]
                    if isinstance(m, FuncV):
                        return m if m.kind == 'static' else BoundV(m, obj.recv)
                    return self.class_attr(c, name)[1]
            if name == '__init__':
                return Builtin('object.__init__', lambda it, a, k: None)
            self.raise_exc('AttributeError', name)
        if isinstance(obj, ExtModule):
            return self.ext_attr(obj, name)
        if isinstance(obj, ModuleV):
            if name in obj.env:
                return self.module_value(obj, name)
            raise Unsupported("module attribute " + name)
        if isinstance(obj, tuple) and len(obj) == 2 and obj[0] == '__dict__':
            return MethodV(obj, name)
        if isinstance(obj, Builtin) and name == '__name__':
            return obj.name
        m = getattr(obj, 'get_attr', None)
        if m is not None:
            return m(self, name)
        return self.lib.attr(self, obj, name)

    def module_value(self, m, name):
        v = m.env[name]
        if isinstance(v, tuple) and len(v) == 3 and v[0] == 'lazy':
            v = self.eval_static(v[1], v[2])
            m.env[name] = v
        return v

    def ext_attr(self, mod, name):
        return self.lib.ext_attr(self, mod, name)

    # ------------------------------------------------------------ expressions
    def eval(self, e):
        m = getattr(self, 'ex_' + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e)

    def ex_Constant(self, e):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v)) if v == v and abs(v) != float('inf') else (PINF if v > 0 else NINF)
        if isinstance(v, (bool, int, str)) or v is None:
            return v
        raise Unsupported("constant %r" % (v,))

    def ex_Name(self, e):
        if e.id in self.st.env:
            v = self.st.env[e.id]
            if v is UNDEF:
                self.ctx.oblige("local variable %s is defined" % e.id, False)
                raise DeadPath()
            if isinstance(v, core_LoopLast):
                raise Unsupported("value of %s after the loop" % e.id)
            if isinstance(v, IteV):
                v = no_undef(v)
            if isinstance(v, IteV) and (v.a is UNDEF or v.b is UNDEF):
                ok = v.c if v.b is UNDEF else b_not(v.c)
                self.ctx.oblige("local variable %s is defined" % e.id, ok)
                return v.a if v.b is UNDEF else v.b
            return v
        m = self.frames[-1].func.module
        if isinstance(m, ModuleV) and e.id in m.env:
            return self.module_value(m, e.id)
        return self.lib.builtin(self, e.id)

    def ex_Attribute(self, e):
        return self.getattr(self.eval(e.value), e.attr)

    def ex_Tuple(self, e):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                c = self.content(self.eval(x.value))
                if not isinstance(c, Lit):
                    raise Unsupported("star of a symbolic sequence")
                out.extend(c.items)
            else:
                out.append(self.eval(x))
        return tuple(out)

    def ex_List(self, e):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            acc = Lit([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    acc = mkconcat(acc, seq_of(self.content(self.eval(x.value))))
                else:
                    acc = mkconcat(acc, Lit([self.eval(x)]))
            return self.new_list(acc)
        return self.new_list(Lit([self.eval(x) for x in e.elts]))

    def ex_Set(self, e):
        s = Lit([self.eval(x) for x in e.elts])
        return self.new('set', SetC(lambda x: member(self.ctx, s, x), s))

    def ex_Dict(self, e):
        d = DLit({})
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            kk, vv = self.eval(k), self.eval(v)
            if isinstance(d, DLit) and not is_symv(kk):
                its = dict(d.items)
                its[kk] = vv
                d = DLit(its)
            else:
                d = DStore(d, kk, vv)
        return self.new_dict(d)

    def ex_IfExp(self, e):
        c = self.decide(self.truth(self.eval(e.test)))
        if c is True:
            return self.eval(e.body)
        if c is False:
            return self.eval(e.orelse)
        return self.branch(c, lambda: self.eval(e.body), lambda: self.eval(e.orelse))

    def ex_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        v = self.eval(e.values[0])
        for i in range(1, len(e.values)):
            c = self.truth(v)
            c = self.decide(c)
            if c is (not isand):
                return v
            if c is isand:
                v = self.eval(e.values[i])
                continue
            rest = e.values[i]
            g = c if isand else b_not(c)
            self.ctx.guard.append(g)
            ng = len(self.ctx.guard)
            try:
                w = self.eval(rest)
            except DeadPath:
                raise Unsupported("exception inside a boolean operator")
            del self.ctx.guard[ng - 1:]
            if is_boolv(v) and (is_boolv(w) or True):
                v = b_and(c, self.truth(w)) if isand else b_or(c, self.truth(w))
            else:
                v = self.vite(c, w, v) if isand else self.vite(c, v, w)
        return v

    def ex_UnaryOp(self, e):
        v = self.eval(e.operand)
        op = type(e.op).__name__
        if op == 'Not':
            return b_not(self.truth(v))
        if op == 'USub':
            return self.binop('Neg', v, None)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            return self.lib.invert(self, v)
        raise Unsupported("unary " + op)

    def ex_BinOp(self, e):
        a = self.eval(e.left)
        b = self.eval(e.right)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        return self.lib.binop(self, op, a, b)

    def ex_Compare(self, e):
        a = self.eval(e.left)
        acc = True
        for op, r in zip(e.ops, e.comparators):
            b = self.eval(r)
            v = self.lib.compare(self, type(op).__name__, a, b)
            if len(e.ops) == 1:
                return v
            acc = b_and(acc, self.truth(v))
            a = b
        return acc

    def ex_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in self.st.env:
            fr = self.frames[-1]
            names = [x.arg for x in fr.func.node.args.args]
            return SuperV(fr.func.cls, self.st.env[names[0]])
        f = self.eval(e.func)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                c = self.content(self.eval(a.value))
                if not isinstance(c, Lit):
                    raise Unsupported("star argument")
                args.extend(c.items)
            else:
                args.append(self.eval(a))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("** argument")
            kw[k.arg] = self.eval(k.value)
        return self.call(f, args, kw)

    def ex_Lambda(self, e):
        return FuncV(e, self.frames[-1].func.module, None, '<lambda>', dict(self.st.env))

    def ex_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value)
                if v.format_spec is not None:
                    spec = self.eval(v.format_spec)
                    parts.extend(str_parts(self.lib.fmt(self, spec, x)))
                else:
                    parts.extend(str_parts(self.lib.to_str(self, x)))
        return mkstr(parts)

    def ex_Subscript(self, e):
        obj = self.eval(e.value)
        return self.lib.getitem(self, obj, self.eval_index(e.slice))

    def eval_index(self, s):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x) if x is not None else None for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x) for x in s.elts)
        return self.eval(s)

    def ex_ListComp(self, e):
        return self.new_list(self.comp(e.elt, e.generators))

    def ex_GeneratorExp(self, e):
        return Frozen(self.comp(e.elt, e.generators), None, 'gen')

    def ex_SetComp(self, e):
        s = self.comp(e.elt, e.generators)
        return self.new('set', SetC(lambda x: member(self.ctx, s, x), s))

    def ex_DictComp(self, e):
        pair = ast.Tuple(elts=[e.key, e.value], ctx=ast.Load())
        s = self.comp(pair, e.generators)
        return self.new_dict(self.lib.dict_of_pairs(self, s))

    def ex_NamedExpr(self, e):
        v = self.eval(e.value)
        self.assign(e.target, v)
        return v

    # ------------------------------------------------------------ comprehension
    def iter_seq(self, v):
        if isinstance(v, IteV):
            return IteSeq(v.c, self.iter_seq(v.a), self.iter_seq(v.b))
        if isinstance(v, Frozen) and isinstance(v.content, Seq):
            return v.content
        m = getattr(v, 'iter_seq', None)
        if m is not None:
            return m(self)
        c = self.content(v)
        return seq_of(c)

    def comp(self, elt, gens):
        env0 = dict(self.st.env)
        try:
            return self._comp(elt, gens)
        finally:
            self.st.env = env0

    def _comp(self, elt, gens):
        ctx = self.ctx
        g = gens[0]
        src = self.iter_seq(self.eval(g.iter))

        def one(v):
            """(cond, value) with the generator variable bound to v"""
            self.st.env = dict(self.st.env)
            self.assign(g.target, v)
            cond = True
            n0 = len(ctx.guard)
            for c in g.ifs:
                t = self.truth(self.eval(c))
                cond = b_and(cond, t)
                if t is not True:
                    ctx.guard.append(t)
            if cond is False:
                del ctx.guard[n0:]
                return False, None
            if len(gens) > 1:
                val = Frozen(self._comp(elt, gens[1:]))
            else:
                val = self.eval(elt)
            del ctx.guard[n0:]
            return cond, val
        if isinstance(src, Lit) or (isinstance(src.n, int) and src.n <= self.sym_unroll):
            out = Lit([])
            for j in range(src.n):
                c, v = one(src.at(j))
                if c is False:
                    continue
                piece = v.content if len(gens) > 1 else Lit([v])
                if c is not True:
                    piece = IteSeq(c, piece, Lit([]))
                out = mkconcat(out, piece)
            return out
        k = ctx.bound('c')
        rng = b_and(cmp_('<=', 0, k), cmp_('<', k, src.n))
        heap0 = dict(self.st.heap)
        ctx.push(k, rng)
        try:
            cond, val = one(src.at(k))
            val = self.freeze(val)
        except BaseException:
            ctx.scopes.pop()
            raise
        ctx.pop()
        for i, c in heap0.items():
            if self.st.heap.get(i) is not c:
                raise Unsupported("comprehension with side effects")
        if len(gens) > 1:
            inner = val.content
            if cond is not True:
                inner = IteSeq(cond, inner, Lit([]))
            return Flat(ctx, src.n, lambda c: csubst(inner, [(k, IT(c))]))
        if cond is True:
            if val is src.at(k) or (is_sym(val) and isinstance(src, Seq) and same(val, src.at(k))):
                return src
            return Fn(src.n, lambda j: vsubst(val, [(k, IT(j))]))
        if cond is False:
            return Lit([])
        return mk_filter(ctx, src.n, k, cond, val)

    # ------------------------------------------------------------ truth
    def truth(self, v):
        if is_boolv(v):
            return v
        if isinstance(v, XR):
            return cmp_('!=', v, 0)
        if is_numlike(v):
            return cmp_('!=', v, 0)
        if v is None:
            return False
        if isinstance(v, str):
            return v != ''
        if isinstance(v, StrV):
            return True
        if isinstance(v, IteV):
            return b_ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, tuple):
            return len(v) > 0
        k = self.kind(v)
        if k in ('list', 'dict', 'set', 'range'):
            n = self.lib.length(self, v)
            return cmp_('!=', n, 0)
        if k == 'nd':
            c = self.content(v)
            if c.ndim == 0:
                return self.truth(c.f())
            raise Unsupported("truth value of an array")
        if isinstance(v, Ref) or isinstance(v, (FuncV, BoundV, ClassV)):
            return True
        raise Unsupported("truth of %s" % type(v).__name__)


class DeadPath(Exception):
    pass


class core_LoopLast:
    """value a loop-local variable has after the loop (not tracked)"""


def same(a, b):
    return is_sym(a) and is_sym(b) and a.eq(b)


def mkconcat(a, b):
    if isinstance(a, Lit) and a.n == 0:
        return b
    if isinstance(b, Lit) and b.n == 0:
        return a
    if isinstance(a, Lit) and isinstance(b, Lit):
        return Lit(a.items + b.items)
    return Concat(a, b)


def mk_filter(ctx, n, k, cond, val):
    if cond is True:
        return Fn(n, lambda j: vsubst(val, [(k, IT(j))]))
    if not occurs(k, T(cond)):
        return IteSeq(cond, Fn(n, lambda j: vsubst(val, [(k, IT(j))])), Lit([]))
    try:
        return Filter(ctx, n, lambda j: vsubst(cond, [(k, IT(j))]), lambda j: vsubst(val, [(k, IT(j))]))
    except Unsupported:
        raise
