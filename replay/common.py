"""Shared parts of the executable contracts: they run the real code of /repo on enumerated, random and
boundary inputs and compare with an independent oracle.  Bounded cross-check of the proofs; it also
supplies the failing input when an obligation fails."""
import contextlib
import importlib
import io
import json
import math
import os
import random
import sys
import time
import traceback
import types

REPO = os.environ.get('DV_REPO', '/repo')
SCRATCH = os.environ.get('DV_SCRATCH', '/tmp')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = float(os.environ.get('DV_BUDGET', '60'))


class Found(Exception):
    pass


class Harness:
    def __init__(self, pid):
        self.pid = pid
        self.rng = random.Random(SEED * 7919 + 13)
        self.t0 = time.time()
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.skipped = []
        self.thorough = TIER == 'thorough'
        self.errors = []

    def left(self):
        return BUDGET - (time.time() - self.t0)

    def more(self, frac=1.0):
        """time left within the given fraction of the budget"""
        return time.time() - self.t0 < BUDGET * frac

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def case(self, key, sample=None, nontrivial=True):
        self.evals += 1
        if nontrivial:
            self.keys.add(hash(key))
        if sample is not None and (len(self.samples) < 3 or (self.evals % 997 == 0 and len(self.samples) < 8)):
            self.samples.append(show(sample))

    def fail(self, clause, inp, got=None, want=None, key=None):
        self.violations.append(dict(clause=clause, input=show(inp), got=show(got), expected=show(want),
                                    key=key or clause, seed=SEED))
        if len(self.violations) >= 3 or True:
            raise Found()

    def check(self, cond, clause, inp, got=None, want=None):
        if not cond:
            self.fail(clause, inp, got, want)

    def call(self, clause, inp, fn, *a, **k):
        """run code under test; an escaping exception breaks the contract"""
        try:
            with quiet():
                return fn(*a, **k)
        except Found:
            raise
        except KeyboardInterrupt:
            self.fail(clause + ': interrupted', inp, 'KeyboardInterrupt')
        except Exception as e:
            if is_gurobi_limit(e):
                raise
            self.fail(clause + ': raised ' + type(e).__name__, inp, '%s: %s\n%s' % (
                type(e).__name__, e, traceback.format_exc()[-1200:]))

    def skip(self, what):
        if what not in self.skipped:
            self.skipped.append(what)


def is_gurobi_limit(e):
    return type(e).__name__ == 'GurobiError' and 'size-limited' in str(e)


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


@contextlib.contextmanager
def quiet():
    old = sys.stdout
    sys.stdout = _Null()
    try:
        yield
    finally:
        sys.stdout = old


def show(v, depth=0):
    try:
        import numpy as np
        if isinstance(v, np.ndarray):
            return show(v.tolist(), depth)
        if isinstance(v, (np.floating, np.integer, np.bool_)):
            return v.item()
    except ImportError:
        pass
    if isinstance(v, dict):
        return {str(k): show(x, depth + 1) for k, x in list(v.items())[:60]}
    if isinstance(v, (list, tuple, range)):
        return [show(x, depth + 1) for x in list(v)[:200]]
    if isinstance(v, (set, frozenset)):
        return sorted((show(x) for x in v), key=str)
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    return str(v)[:2000]


def stub_violations():
    """the compiled extension is only the object of C12; elsewhere the repository's own reference stands in"""
    if 'violations' in sys.modules:
        return
    m = types.ModuleType('violations')

    def compute_all_violations(A, b):
        import src.song_big_m as ref
        with quiet():
            return ref.compute_all_violations(A, b)
    m.compute_all_violations = compute_all_violations
    sys.modules['violations'] = m


def repo(name):
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    stub_violations()
    with quiet():
        return importlib.import_module(name)


# ------------------------------------------------------------------ instances
_n = [0]


def write_instance(A, b, c, extra='1000'):
    """A[s][i][j], b[i], c[j] -> file name"""
    _n[0] += 1
    S, m, n = len(A), len(A[0]), len(A[0][0])
    p = os.path.join(SCRATCH, 'inst-%d-%d-%d-%d.csv' % (n, m, S, _n[0]))
    with open(p, 'w', newline='\n') as f:
        f.write(','.join([str(n), str(m), str(S)] + ([extra] if extra else [])) + '\n')
        f.write(','.join(repr(float(x)) for x in c) + '\n')
        for s in range(S):
            for i in range(m):
                f.write(','.join(repr(float(x)) for x in A[s][i]) + '\n')
        f.write(','.join(repr(float(x)) for x in b) + '\n')
    return p


def load(A, b, c, cont, eps, keep=False):
    K = repo('src.instance.ChanceKnapInstance').ChanceKnapInstance
    p = write_instance(A, b, c)
    try:
        with quiet():
            return K(p, cont, eps)
    finally:
        if not keep:
            os.unlink(p)


STYLES = ['plain', 'sparse', 'ties', 'wide', 'zero', 'tight', 'small']


def rand_data(rng, S, m, n, style=None):
    """nonnegative data with one decimal"""
    style = style or rng.choice(STYLES)

    def a():
        if style == 'plain':
            return rng.randint(0, 100) / 10
        if style == 'sparse':
            return 0.0 if rng.random() < 0.55 else rng.randint(1, 80) / 10
        if style == 'ties':
            return float(rng.randint(0, 2))
        if style == 'wide':
            return rng.choice([0.1, 1.0, 10.0, 100.0]) * rng.randint(1, 9)
        if style == 'zero':
            return 0.0 if rng.random() < 0.3 else rng.randint(0, 30) / 10
        if style == 'small':
            return rng.randint(0, 10) / 10
        return rng.randint(1, 50) / 10
    A = [[[a() for _ in range(n)] for _ in range(m)] for _ in range(S)]
    if style == 'zero' and n > 0:
        A[rng.randrange(S)][rng.randrange(m)] = [0.0] * n
    b = []
    for i in range(m):
        tot = max(sum(A[s][i]) for s in range(S))
        f = {'tight': 0.3, 'plain': 0.5}.get(style, rng.choice([0.2, 0.4, 0.6, 0.9, 1.2]))
        b.append(round(max(0.1, tot * f * (0.7 + 0.6 * rng.random())), 1))
    if rng.random() < 0.05:
        b[rng.randrange(m)] = 0.0
    c = [float(rng.randint(0, 20)) if style == 'ties' else round(rng.randint(1, 300) / 10, 1) for _ in range(n)]
    if rng.random() < 0.1:
        c[rng.randrange(n)] = 0.0
    A = [[[round(x, 1) for x in r] for r in M] for M in A]
    return A, b, c


def rand_instance(rng, S=None, m=None, n=None, cont=None, eps=None, style=None):
    S = S or rng.randint(1, 8)
    m = m or rng.randint(1, 4)
    n = n or rng.randint(1, 5)
    cont = rng.random() < 0.5 if cont is None else cont
    if eps is None:
        eps = rand_eps(rng, S)
    A, b, c = rand_data(rng, S, m, n, style)
    return load(A, b, c, cont, eps)


def rand_eps(rng, S):
    return rng.choice([0.0, 0.1, 0.2, 0.3, 0.05, 0.25, 0.29, 0.57, 0.5, 0.6, round(rng.random() * 0.95, 2),
                       round(rng.randrange(S) / S, 3)])


def describe(ci):
    return dict(A=ci.matrices_A.tolist(), b=ci.vectors_b.tolist(), c=ci.vector_c.tolist(), epsilon=ci.epsilon,
                continuous=bool(ci.continuous_var), proba=ci.proba.tolist())


def rand_point(rng, n, cont):
    r = rng.random()
    if r < 0.1:
        return [0.0] * n
    if r < 0.2:
        return [1.0] * n
    if not cont or r < 0.35:
        return [float(rng.random() < 0.6) for _ in range(n)]
    return [rng.choice([rng.random(), rng.randint(0, 10) / 10]) for _ in range(n)]


def tol_count(eps, S):
    """largest number of violated scenarios allowed: exact for decimal epsilons"""
    from fractions import Fraction
    return math.floor(Fraction(str(eps)) * S + Fraction(1, 10 ** 9))


def rand_partition(rng, S, k=None):
    k = k or rng.randint(1, S)
    idx = list(range(S))
    rng.shuffle(idx)
    cuts = sorted(rng.sample(range(1, S), k - 1)) if k > 1 else []
    parts = [idx[a:b] for a, b in zip([0] + cuts, cuts + [S])]
    if rng.random() < 0.3:
        parts = [sorted(p) for p in parts]
    return parts


def all_partitions(S):
    """all set partitions of range(S)"""
    def rec(i, parts):
        if i == S:
            yield [list(p) for p in parts]
            return
        for p in parts:
            p.append(i)
            yield from rec(i + 1, parts)
            p.pop()
        parts.append([i])
        yield from rec(i + 1, parts)
        parts.pop()
    yield from rec(0, [])


# ------------------------------------------------------------------ oracles
def violated(ci_A, ci_b, x, s, tol=1e-6):
    import numpy as np
    lhs = np.asarray(ci_A[s]) @ np.asarray(x, dtype=float)
    return bool(np.any(lhs - np.asarray(ci_b[s]) > tol))


def lp_max(c, rows, rhs, cont, n):
    """max c x over the unit box (or binaries) subject to rows x <= rhs; None if infeasible"""
    import gurobipy as gp
    from gurobipy import GRB
    global _ENV
    try:
        _ENV
    except NameError:
        with quiet():
            _ENV = gp.Env(empty=True)
            _ENV.setParam('OutputFlag', 0)
            _ENV.start()
    mdl = gp.Model('oracle', env=_ENV)
    mdl.Params.OutputFlag = 0
    mdl.Params.MIPGap = 0
    mdl.Params.FeasibilityTol = 1e-9
    mdl.Params.Threads = 1
    x = [mdl.addVar(lb=0, ub=1, vtype=GRB.CONTINUOUS if cont else GRB.BINARY) for _ in range(n)]
    mdl.setObjective(gp.quicksum(float(c[j]) * x[j] for j in range(n)), GRB.MAXIMIZE)
    for r, h in zip(rows, rhs):
        mdl.addConstr(gp.quicksum(float(r[j]) * x[j] for j in range(n)) <= float(h))
    mdl.optimize()
    if mdl.Status != GRB.OPTIMAL:
        mdl.dispose()
        return None
    v = (mdl.ObjVal, [v.X for v in x])
    mdl.dispose()
    return v


def scen_max(ci, scen):
    rows, rhs = [], []
    for s in scen:
        for i in range(len(ci.vectors_b[s])):
            rows.append(ci.matrices_A[s, i])
            rhs.append(ci.vectors_b[s, i])
    return lp_max(ci.vector_c, rows, rhs, bool(ci.continuous_var), ci.nb_vars)


def cclp_opt(ci):
    """optimum of the chance-constrained problem by enumeration of the violated scenarios"""
    import itertools
    S = ci.nb_scenarios
    k = tol_count(ci.epsilon, S)
    best = -math.inf
    bx = None
    for out in itertools.combinations(range(S), min(k, S)):
        v = scen_max(ci, [s for s in range(S) if s not in out])
        if v is not None and v[0] > best:
            best, bx = v
    return best, bx


def close(a, b, tol=1e-6):
    if a is None or b is None:
        return a is b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
