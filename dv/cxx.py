"""C++ functions as Python source: mechanical translation of clang's AST (-ast-dump=json) of the subset used in
/repo/violations.h, afresh on every run.  Dropped: types, const, references of class type (objects are
shared either way), delete.  Everything outside the subset raises Unsupported.

pointer p            value of class dv.cxx.Ptr: array and offset      *p, p[e]   p[0], p[e]
&p[e], p + e         cxx_addr(p, e)
for (int v = a; v < b (or !=, <=); v += c)       for v in range(a, b, c), if neither v nor what b, c consist of changes in the body
std::sort(p, q, f)   cxx_sort(p, q, f): assumed contract
"""
import json
import os
import subprocess
from .core import Unsupported, arith, cmp_
from .lib import conc
from .interp import ModuleV, Builtin
import ast

STD = {'sort': 'cxx_sort', 'min': 'min', 'max': 'max', 'fabs': 'abs', 'abs': 'abs', 'fmin': 'min', 'fmax': 'max', 'infinity': 'cxx_inf'}


def dump(path, name):
    p = subprocess.run(['clang++', '-x', 'c++', '-std=c++17', '-fsyntax-only', '-Xclang', '-ast-dump=json', '-Xclang', '-ast-dump-filter=' + name, path],
                       capture_output=True, text=True, stdin=subprocess.DEVNULL, timeout=60)
    if p.returncode:
        raise Unsupported("clang does not accept %s: %s" % (path, p.stderr[:300]))
    t, i, out, d = p.stdout, 0, [], json.JSONDecoder()
    while True:
        j = t.find('{', i) if i == 0 else t.find('\n{', i)
        if j < 0:
            return out
        o, i = d.raw_decode(t, j if t[j] == '{' else j + 1)
        out.append(o)


class Translator:
    def __init__(self, path):
        self.path = path
        self.todo, self.done, self.out = [], {}, []
        self.scopes = []

    def unit(self, name):
        self.todo = [name]
        while self.todo:
            nm = self.todo.pop()
            if nm in self.done:
                continue
            self.done[nm] = None
            defs = [o for o in dump(self.path, nm) if o.get('name') == nm and (
                o['kind'] == 'FunctionDecl' and any(c['kind'] == 'CompoundStmt' for c in o.get('inner', ())) and not o.get('mangledName', '').startswith(('_ZSt', '_ZNSt')) or
                o['kind'] == 'CXXRecordDecl' and o.get('completeDefinition') and not o.get('isImplicit'))]
            if len(defs) != 1:
                raise Unsupported("%d definitions of %s in %s" % (len(defs), nm, self.path))
            self.out.append(self.func(defs[0]) if defs[0]['kind'] == 'FunctionDecl' else self.record(defs[0]))
        self.out.sort(key=lambda s: not s.startswith('class'))
        return '\n\n'.join(self.out) + '\n'

    # ---- declarations
    def func(self, o, method=False, init=''):
        ps = [c['name'] for c in o['inner'] if c['kind'] == 'ParmVarDecl']
        for c in o['inner']:
            if c['kind'] == 'ParmVarDecl':
                q = c['type']['qualType']
                if not (q.endswith(('&', '*')) or q in ('int', 'double', 'bool', 'unsigned int', 'long', 'const int', 'const double', 'const bool')):
                    raise Unsupported("parameter of type " + q)
                if q.endswith('&') and q.replace('const ', '').rstrip(' &') in ('int', 'double', 'bool') and not q.startswith('const'):
                    raise Unsupported("parameter of type " + q)
                self.need_type(q)
        body = [c for c in o['inner'] if c['kind'] == 'CompoundStmt'][0]
        self.members = method
        self.scopes = [set(ps)]
        name = {'operator()': '__call__'}.get(o['name'], o['name'])
        if init:
            name = '__init__'
        b = self.block(body, 1)
        return 'def %s(%s):\n%s' % (name, ', '.join((['self'] if method else []) + ps), b)

    def need_type(self, q):
        q = q.replace('const ', '').replace('struct ', '').replace('class ', '').rstrip(' *&')
        if q and q not in ('int', 'double', 'bool', 'void', 'unsigned int', 'long', 'unsigned long', 'float', 'size_t') and '::' not in q:
            if q not in self.done:
                self.todo.append(q)

    def record(self, o):
        out = []
        fields = [c['name'] for c in o.get('inner', ()) if c['kind'] == 'FieldDecl']
        ctor = None
        for c in o.get('inner', ()):
            if c.get('isImplicit'):
                continue
            if c['kind'] == 'CXXConstructorDecl':
                if ctor is not None or any(x['kind'] == 'CXXCtorInitializer' for x in c.get('inner', ())):
                    raise Unsupported("constructor of " + o['name'])
                ctor = self.func(c, True, 'init')
            elif c['kind'] == 'CXXMethodDecl':
                out.append(self.func(c, True))
            elif c['kind'] not in ('FieldDecl', 'CXXRecordDecl', 'AccessSpecDecl', 'FullComment'):
                raise Unsupported("member %s of %s" % (c['kind'], o['name']))
        if ctor is None:
            ctor = 'def __init__(self):\n    pass\n'
        out.insert(0, ctor)
        return 'class %s:\n%s' % (o['name'], '\n'.join('    ' + l if l else l for m in out for l in m.split('\n')))

    # ---- statements
    def block(self, s, d):
        self.scopes.append(set())
        out = ''
        for c in (s.get('inner', ()) if s['kind'] == 'CompoundStmt' else [s]):
            out += self.stmt(c, d)
        self.scopes.pop()
        return out or '    ' * d + 'pass\n'

    def declare(self, v):
        if any(v in s for s in self.scopes):
            raise Unsupported("declaration of %s hides another one" % v)
        self.scopes[-1].add(v)

    def stmt(self, s, d):
        k, ind = s['kind'], '    ' * d
        inner = s.get('inner', [])
        if k == 'CompoundStmt':
            return self.block(s, d)
        if k == 'NullStmt':
            return ''
        if k == 'DeclStmt':
            out = ''
            for v in inner:
                if v['kind'] != 'VarDecl' or v.get('storageClass'):
                    raise Unsupported("declaration " + v['kind'])
                q = v['type']['qualType']
                if q.endswith('&') or q.endswith(']'):
                    raise Unsupported("variable of type " + q)
                self.need_type(q)
                self.declare(v['name'])
                init = [c for c in v.get('inner', ()) if c['kind'] not in ('FullComment',)]
                if init:
                    out += '%s%s = %s\n' % (ind, v['name'], self.expr(init[0]))
            return out
        if k == 'IfStmt':
            if s.get('hasInit') or s.get('hasVar'):
                raise Unsupported("if with a declaration")
            out = '%sif %s:\n%s' % (ind, self.expr(inner[0]), self.block(inner[1], d + 1))
            if len(inner) > 2:
                out += '%selse:\n%s' % (ind, self.block(inner[2], d + 1))
            return out
        if k == 'WhileStmt':
            return '%swhile %s:\n%s' % (ind, self.expr(inner[0]), self.block(inner[-1], d + 1))
        if k == 'ForStmt':
            return self.loop(s, d)
        if k == 'BreakStmt':
            return ind + 'break\n'
        if k == 'ContinueStmt':
            return ind + 'continue\n'
        if k == 'ReturnStmt':
            return ind + ('return %s\n' % self.expr(inner[0]) if inner else 'return\n')
        if k == 'CXXDeleteExpr':
            return ''
        if k == 'CStyleCastExpr' and s['castKind'] == 'ToVoid':
            return self.stmt(inner[0], d)
        if k in ('IntegerLiteral', 'FloatingLiteral', 'DeclRefExpr', 'CXXBoolLiteralExpr'):
            return ''
        if k in ('ExprWithCleanups', 'ParenExpr', 'ImplicitCastExpr'):
            return self.stmt(inner[0], d)
        if k == 'BinaryOperator' and s['opcode'] == '=':
            return '%s%s = %s\n' % (ind, self.expr(inner[0]), self.expr(inner[1]))
        if k == 'BinaryOperator' and s['opcode'] == ',':
            return self.stmt(inner[0], d) + self.stmt(inner[1], d)
        if k == 'CompoundAssignOperator':
            op = s['opcode'][:-1]
            if op not in '+-*' and not (op == '/' and s['type']['qualType'] == 'double'):
                raise Unsupported("operator " + s['opcode'])
            if inner[0]['type']['qualType'] not in ('int', 'double', 'long'):
                raise Unsupported("%s on %s" % (s['opcode'], inner[0]['type']['qualType']))
            if inner[0]['type']['qualType'] != 'double' and s.get('computeResultType', inner[0]['type'])['qualType'] == 'double':
                raise Unsupported("conversion to int")
            return '%s%s %s= %s\n' % (ind, self.expr(inner[0]), op, self.expr(inner[1]))
        if k == 'UnaryOperator' and s['opcode'] in ('++', '--'):
            return '%s%s %s= 1\n' % (ind, self.expr(inner[0]), s['opcode'][0])
        if k in ('CallExpr', 'CXXOperatorCallExpr', 'CXXMemberCallExpr'):
            return ind + self.expr(s) + '\n'
        raise Unsupported("statement " + k)

    def names(self, s, store=False):
        """variables that occur in (or are changed by) a piece of code"""
        out = set()

        def walk(n):
            k = n.get('kind')
            if k == 'DeclRefExpr':
                if not store:
                    out.add(n['referencedDecl']['name'])
            hit = k == 'BinaryOperator' and n['opcode'] == '=' or k == 'CompoundAssignOperator' or k == 'UnaryOperator' and n['opcode'] in ('++', '--', '&')
            if store and hit:
                t = n['inner'][0]
                while t['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                    t = t['inner'][0]
                if t['kind'] == 'DeclRefExpr':
                    out.add(t['referencedDecl']['name'])
            for c in n.get('inner', ()):
                walk(c)
        walk(s)
        return out

    def loop(self, s, d):
        ind = '    ' * d
        init, var, cond, inc, body = s['inner']
        if var:
            raise Unsupported("for with a condition variable")
        self.scopes.append(set())
        try:
            r = self.counted(init, cond, inc, body)
            if r:
                v, a, b, c = r
                self.declare(v)
                return '%sfor %s in range(%s, %s, %s):\n%s' % (ind, v, a, b, c, self.block(body, d + 1))
            out = self.stmt(init, d) if init else ''
            if any(x == 'ContinueStmt' for x in self.kinds(body)):
                raise Unsupported("continue in a general for loop")
            b = self.block(body, d + 1)
            return out + '%swhile %s:\n%s%s' % (ind, self.expr(cond) if cond else 'True', b, self.stmt(inc, d + 1) if inc else '')
        finally:
            self.scopes.pop()

    def kinds(self, s):
        if s.get('kind') in ('ForStmt', 'WhileStmt'):
            return
        yield s.get('kind')
        for c in s.get('inner', ()):
            yield from self.kinds(c)

    def counted(self, init, cond, inc, body):
        if not (init and cond and inc) or init['kind'] != 'DeclStmt' or len(init['inner']) != 1 or not init['inner'][0].get('inner'):
            return None
        v = init['inner'][0]['name']
        if init['inner'][0]['type']['qualType'] not in ('int', 'long', 'size_t', 'unsigned int') or cond['kind'] != 'BinaryOperator' or cond['opcode'] not in ('<', '!=', '<=', '>', '>='):
            return None

        def var(x):
            while x['kind'] in ('ImplicitCastExpr', 'ParenExpr'):
                x = x['inner'][0]
            return x['kind'] == 'DeclRefExpr' and x['referencedDecl']['name'] == v
        if not var(cond['inner'][0]):
            return None
        if inc['kind'] == 'UnaryOperator' and inc['opcode'] in ('++', '--') and var(inc['inner'][0]):
            c, cn = '1' if inc['opcode'] == '++' else '-1', set()
        elif inc['kind'] == 'CompoundAssignOperator' and inc['opcode'] == '+=' and var(inc['inner'][0]):
            c, cn = self.expr(inc['inner'][1]), self.names(inc['inner'][1])
        else:
            return None
        ch = self.names(body, True)
        bn = self.names(cond['inner'][1])
        if v in ch or (bn | cn) & ch or v in bn | cn:
            return None
        b = self.expr(cond['inner'][1])
        if cond['opcode'] in ('>', '>='):
            if c != '-1':
                return None
        elif cond['opcode'] in ('<', '<='):
            if c.startswith('-') or not c.isdigit():
                return None
        else:
            c = 'cxx_unit(%s)' % c          # != : only steps of one
        if cond['opcode'] in ('<=', '>='):
            b = '(%s) %s 1' % (b, '+' if cond['opcode'] == '<=' else '-')
        return v, self.expr(init['inner'][0]['inner'][0]), b, c

    # ---- expressions
    def expr(self, e):
        k = e['kind']
        inner = e.get('inner', [])
        if k == 'ImplicitCastExpr' or k in ('CStyleCastExpr', 'CXXStaticCastExpr', 'CXXFunctionalCastExpr'):
            if e['castKind'] not in ('LValueToRValue', 'IntegralToFloating', 'FunctionToPointerDecay', 'NullToPointer', 'NoOp', 'IntegralCast', 'ArrayToPointerDecay',
                                     'ConstructorConversion'):
                raise Unsupported("cast " + e['castKind'])
            return self.expr(inner[0])
        if k in ('ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'ConstantExpr'):
            return '(%s)' % self.expr(inner[0])
        if k == 'IntegerLiteral':
            return e['value']
        if k == 'FloatingLiteral':
            return repr(float(e['value']))
        if k == 'CXXBoolLiteralExpr':
            return str(bool(e['value']))
        if k == 'CXXNullPtrLiteralExpr':
            return 'None'
        if k == 'DeclRefExpr':
            rd = e['referencedDecl']
            if rd['kind'] == 'FunctionDecl' or rd['kind'] == 'CXXMethodDecl':
                return self.callee(rd['name'])
            return rd['name']
        if k == 'CXXThisExpr':
            return 'self'
        if k == 'MemberExpr':
            return '%s.%s' % (self.expr(inner[0]), e['name'])
        if k == 'ArraySubscriptExpr':
            return '%s[%s]' % (self.expr(inner[0]), self.expr(inner[1]))
        if k == 'UnaryOperator':
            o = e['opcode']
            if o == '*':
                return '%s[0]' % self.expr(inner[0])
            if o == '&':
                t = inner[0]
                while t['kind'] == 'ParenExpr':
                    t = t['inner'][0]
                if t['kind'] != 'ArraySubscriptExpr':
                    raise Unsupported("address of " + t['kind'])
                return 'cxx_addr(%s, %s)' % (self.expr(t['inner'][0]), self.expr(t['inner'][1]))
            if o == '!':
                return '(not %s)' % self.expr(inner[0])
            if o in '-+':
                return '(%s%s)' % (o, self.expr(inner[0]))
            raise Unsupported("operator " + o)
        if k == 'BinaryOperator':
            o = e['opcode']
            a, b = self.expr(inner[0]), self.expr(inner[1])
            ptr = [x['type']['qualType'].endswith('*') for x in inner]
            if o in '+-' and any(ptr):
                if ptr == [True, False]:
                    return 'cxx_addr(%s, %s)' % (a, b if o == '+' else '-(%s)' % b)
                if ptr == [False, True] and o == '+':
                    return 'cxx_addr(%s, %s)' % (b, a)
                raise Unsupported("pointer arithmetic")
            if o == '/' and e['type']['qualType'] != 'double':
                raise Unsupported("integer division")
            o = {'&&': 'and', '||': 'or'}.get(o, o)
            if o not in ('+', '-', '*', '/', '<', '<=', '>', '>=', '==', '!=', 'and', 'or'):
                raise Unsupported("operator " + o)
            return '(%s %s %s)' % (a, o, b)
        if k == 'ConditionalOperator':
            return '(%s if %s else %s)' % (self.expr(inner[1]), self.expr(inner[0]), self.expr(inner[2]))
        if k == 'CallExpr':
            return '%s(%s)' % (self.expr(inner[0]), ', '.join(self.expr(x) for x in inner[1:]))
        if k == 'CXXOperatorCallExpr':
            f = inner[0]
            while f['kind'] == 'ImplicitCastExpr':
                f = f['inner'][0]
            if f.get('referencedDecl', {}).get('name') != 'operator()':
                raise Unsupported("operator call")
            return '%s(%s)' % (self.expr(inner[1]), ', '.join(self.expr(x) for x in inner[2:]))
        if k == 'CXXMemberCallExpr':
            return '%s(%s)' % (self.expr(inner[0]), ', '.join(self.expr(x) for x in inner[1:]))
        if k == 'CXXConstructExpr':
            q = e['type']['qualType'].replace('const ', '')
            if not inner:
                self.need_type(q)
                return q + '()'
            # a copy of an object that is only read
            return 'cxx_copy(%s)' % self.expr(inner[0])
        if k == 'CXXNewExpr':
            if not e.get('isArray'):
                raise Unsupported("new")
            return 'cxx_new(%s)' % self.expr(inner[0])
        raise Unsupported("expression " + k)

    def callee(self, nm):
        if nm in STD:
            return STD[nm]
        if nm not in self.done:
            self.todo.append(nm)
        return nm


class Ptr:
    """pointer into an array (a list in the heap): element q of the pointer is element off + q of the array"""

    def __init__(self, ref, off=0):
        self.ref, self.off = ref, off

    def get_item(self, it, q):
        c = it.content(self.ref)
        k = arith('+', self.off, q)
        it.ctx.oblige('access inside the array', b_range(k, c.n))
        return c.at(k)

    def set_item(self, it, q, v):
        from .seqs import Store
        c = it.content(self.ref)
        k = arith('+', self.off, q)
        it.ctx.oblige('access inside the array', b_range(k, c.n))
        it.st.heap[self.ref.id] = Store(c, k, v)

    def shift(self, q):
        return Ptr(self.ref, arith('+', self.off, q))


def b_range(k, n):
    from .core import b_and
    return b_and(cmp_('<=', 0, k), cmp_('<', k, n))


def unit(it, a, kw):
    if conc(a[0]) not in (1, -1):
        raise Unsupported("step of a loop")
    return conc(a[0])


BUILTINS = {
    'cxx_addr': lambda it, a, kw: a[0].shift(a[1]),
    'cxx_unit': unit,
    'cxx_copy': lambda it, a, kw: a[0],
}


def module(it, path, name, extra):
    """the translated functions as a module; extra: contracts of external functions"""
    if not os.path.exists(path):
        raise Unsupported("no " + path)
    src = Translator(path).unit(name)
    m = ModuleV('violations.h', {})
    for k, f in {**BUILTINS, **extra}.items():
        m.env[k] = Builtin(k, f)
    for st in ast.parse(src).body:
        it.loader.top(it, m, st)
    it.loader.files.add(os.path.relpath(path, it.loader.root))
    m.source = src
    return m


def pyx(it, path, externs):
    """a Cython module as Python: declarations of external functions, types of parameters and variables, and the
    address operator are dropped (an address stands for the whole array); everything else is unchanged"""
    import re
    src = open(path).read()
    src = re.sub(r'(?m)^cdef extern from [^\n]*:\n(?:[ \t]+[^\n]*\n|[ \t]*\n)+', '', src)
    typ = r'(?:unsigned\s+)?(?:int|long|double|float|bint|object|size_t|Py_ssize_t)(?:\s*\[[^\]]*\])?'

    def head(m):
        ps = [re.sub(r'^\s*' + typ + r'\s+', '', x.strip()) for x in re.split(r',(?![^\[]*\])', m.group(3))]
        return '%sdef %s(%s):' % (m.group(1), m.group(2), ', '.join(ps))
    src = re.sub(r'(?m)^([ \t]*)(?:cpdef|cdef|def)\s+(?:' + typ + r'\s+)?(\w+)\s*\(([^)]*)\)\s*(?:nogil|noexcept)?\s*:', head, src)
    src = re.sub(r'(?m)^([ \t]*)cdef\s+' + typ + r'\s+(\w+\s*=)', r'\1\2', src)
    src = re.sub(r'(?m)^([ \t]*)cdef\s+' + typ + r'\s+[\w, \t]+$', r'\1pass', src)
    src = re.sub(r'&\s*(\w+)\s*\[\s*0\s*(?:,\s*0\s*)*\]', r'\1', src)
    try:
        tree = ast.parse(src)
    except SyntaxError as e:
        raise Unsupported("Cython code: %s" % e)
    m = ModuleV('violations.pyx', {})
    for k, f in externs.items():
        m.env[k] = Builtin(k, f)
    for st in tree.body:
        it.loader.top(it, m, st)
    it.loader.files.add(os.path.relpath(path, it.loader.root))
    m.source = src
    return m
