"""Runs the adaptive method on small instances and records what happens at its public interfaces."""
import inspect
import random

import common
from common import repo, quiet


def classes():
    return dict(
        AP=repo('src.solver.AdaptivePartitioner').AdaptivePartitioner,
        BM=repo('src.BigMFinder').BigMFinder,
        TM=repo('src.TimeManager').TimeManager)


OPTS = [dict(split_method='random', initial_partition_type='random', use_acc_obj=False),
        dict(split_method='random', initial_partition_type='cost', use_acc_obj=False),
        dict(split_method='cost', initial_partition_type='cost', use_acc_obj=True),
        dict(split_method='cost', initial_partition_type='random', use_acc_obj=True)]
SOLVE = [dict(use_merger=False, use_big_M=True, big_m_method='belotti'),
         dict(use_merger=True, use_big_M=True, big_m_method='belotti', use_lazy=True),
         dict(use_merger=True, use_big_M=False),
         dict(use_merger=True, use_big_M=True, big_m_method='song'),
         dict(use_merger=True, use_big_M=True, big_m_method='naive')]


def bound_args(fn, a, k):
    try:
        return inspect.signature(fn).bind(*a, **k).arguments
    except TypeError:
        return {}


class Recorder:
    """wraps the public methods of one AdaptivePartitioner object; self.events is the history"""

    def __init__(self, ci, opts, sopts, seed, limit=1e6, hooks=None):
        self.ci, self.opts, self.sopts, self.seed = ci, opts, sopts, seed
        self.limit = limit
        self.events = []
        self.hooks = hooks or {}

    def inp(self):
        return dict(instance=common.describe(self.ci), options=self.opts, solve=self.sopts, seed=self.seed)

    def wrap(self, obj, name, kind):
        fn = getattr(obj, name, None)
        if fn is None:
            return

        def w(*a, **k):
            args = bound_args(fn, a, k)
            h = self.hooks.get(kind + ':before')
            tok = h(self, args) if h else None
            out = fn(*a, **k)
            h = self.hooks.get(kind)
            if h:
                h(self, args, out, tok)
            return out
        setattr(obj, name, w)

    def build(self):
        c = classes()
        random.seed(self.seed)
        with quiet():
            self.m = c['AP'](self.ci, time_limit=self.limit, **self.opts)
        m = self.m
        self.wrap(m, '_split', 'split')
        self.wrap(m, '_merge', 'merge')
        self.wrap(m, '_upper_bound', 'upper')
        self.wrap(m, '_lower_bound', 'lower')
        self.wrap(m, 'solve_cclp_model', 'cclp')
        self.wrap(m.refiner, 'refine', 'refine')
        self.wrap(m.merger, 'merge_all', 'merge_all')
        self.wrap(m.merger, 'merge_feasible', 'merge_feasible')
        self.wrap(m.upperbounder, 'first_iteration_bound', 'first')
        self.wrap(m.upperbounder, 'partition_bound', 'pbound')
        self.wrap(m.lowerbounder, 'incumbent_bound', 'incumbent')
        self.wrap(m.lowerbounder, 'deterministic_bound', 'projection')
        self.wrap(m.informer, 'print_iter_info', 'iteration')
        self.wrap(m.informer, 'store_iteration_info', 'info')
        self.wrap(m.chance_instance_part, 'load_partition', 'load')
        return m

    def solve(self):
        c = classes()
        with quiet():
            bm = c['BM'](self.m.chance_instance_part)
            self.m.solve(bm, **self.sopts)
        return self.m


def pick(rng, S=None, big=False):
    """a small random instance together with run options"""
    S = S or rng.randint(2, 9 if not big else 12)
    eps = round(rng.randrange(0, S) / S * 0.7, 2)
    ci = common.rand_instance(rng, S=S, m=rng.randint(1, 3), n=rng.randint(2, 5), eps=eps,
                              style=rng.choice(['plain', 'sparse', 'tight', 'wide', 'ties', 'small']))
    return ci, rng.choice(OPTS), rng.choice(SOLVE), rng.randrange(10 ** 6)


def hard(rng):
    """instances on which several iterations are usual"""
    S = rng.randint(8, 20)
    m, n = rng.randint(1, 4), rng.randint(4, 8)
    eps = round(rng.choice([0.15, 0.2, 0.25, 0.3, 0.4, 0.5]), 2)
    A = [[[0.0 if rng.random() < 0.3 else rng.randint(1, 60) / 10 for _ in range(n)] for _ in range(m)] for _ in range(S)]
    b = [round(sum(sum(A[s][i]) for s in range(S)) / S * rng.uniform(0.35, 0.7), 1) for i in range(m)]
    c = [round(rng.randint(10, 300) / 10, 1) for _ in range(n)]
    ci = common.load(A, b, c, rng.random() < 0.5, eps)
    return ci, rng.choice(OPTS), rng.choice(SOLVE), rng.randrange(10 ** 6)
