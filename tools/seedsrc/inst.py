"""writes a small instance file in a scratch directory and loads it with the code under test"""
import atexit
import contextlib
import io
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.getcwd())
import numpy as np
D = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, D, True)


def write(A, b, c, name='ccmknap-1-1-1.csv'):
    A = np.asarray(A, float)
    S, m, n = A.shape
    rows = [[n, m, S, 0], list(c)] + [list(A[s, i]) for s in range(S) for i in range(m)] + [list(b)]
    p = os.path.join(D, name)
    with open(p, 'w') as f:
        for r in rows:
            f.write(','.join(repr(float(v)) if not isinstance(v, int) else str(v) for v in r) + '\n')
    return p


def load(A, b, c, eps=0.2, cont=True, name='ccmknap-1-1-1.csv'):
    from src.instance.ChanceKnapInstance import ChanceKnapInstance
    return ChanceKnapInstance(write(A, b, c, name), cont, eps)


def rand(S, m, n, seed=0, eps=0.2, cont=True, cap=0.5):
    r = np.random.RandomState(seed)
    A = np.round(r.randint(1, 100, (S, m, n)).astype(float), 1)
    b = np.full(m, round(cap * 50 * n, 1))
    c = r.randint(1, 100, n).astype(float)
    return load(A, b, c, eps, cont)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield
