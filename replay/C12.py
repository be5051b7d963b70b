"""C12: the violation table of the compiled extension and the song big-M values"""
import itertools
import os
import shutil
import subprocess
import sys
import common
from common import repo

RULE = ("the extension is built from the current tree in a scratch folder; random nonnegative data (zero columns, zero "
        "capacities, ties, sparse rows, weights below the extension's 1e-6 cutoff) with up to 5 scenarios, 4 constraints, 6 variables: every entry against the exact "
        "minimum over single-constraint knapsacks (linear programs) and the largest violation over the points satisfying "
        "the other scenario; big-M values against the largest violation over points violating at most the allowed number of "
        "scenarios or subsets, by enumeration")
_built = []


def build(H):
    if _built:
        return _built[0]
    d = os.path.join(common.SCRATCH, 'ext')
    os.makedirs(d)
    for f in ('violations.pyx', 'violations.h', 'setup_violations.py'):
        shutil.copy(os.path.join(common.REPO, f), d)
    r = subprocess.run([sys.executable, 'setup_violations.py', 'build_ext', '--inplace'], cwd=d, stdin=subprocess.DEVNULL,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300, env=dict(os.environ, CFLAGS='-O2 -w'))
    if r.returncode != 0:
        raise RuntimeError('the extension does not build: ' + r.stdout.decode(errors='replace')[-1500:])
    sys.path.insert(0, d)
    sys.modules.pop('violations', None)
    import violations
    assert os.path.dirname(os.path.abspath(violations.__file__)) == d
    _built.append(violations)
    return violations


LIGHT = 1e-9


def data(rng, many=False, light=False):
    S, m, n = rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 6)
    if many:
        S, m, n = rng.randint(8, 10), rng.randint(1, 2), rng.randint(1, 3)
    A, b, c = common.rand_data(rng, S, m, n)
    import numpy as np
    A = np.array(A, dtype=float)
    b = np.tile(np.array(b, dtype=float), (S, 1))
    r = rng.random()
    if r < 0.5:
        b = np.round(b + np.array([[rng.randint(0, 30) / 10 for _ in range(m)] for _ in range(S)]), 1)
    if r < 0.15:
        A[:, :, rng.randrange(n)] = 0.0
    if 0.15 < r < 0.25:
        A[rng.randrange(S), rng.randrange(m)] = 0.0
    if 0.25 < r < 0.35:
        b[rng.randrange(S), rng.randrange(m)] = 0.0
    if light:
        A[A == 0.0] = LIGHT
        A[np.array([[[rng.random() < 0.4 for _ in range(n)] for _ in range(m)] for _ in range(S)])] = LIGHT
    return A, b, c


def knap(a, b, w, cap):
    """largest violation of (a, b) over box points with w x <= cap: exact, by the greedy argument"""
    prof = -float(b)
    items = []
    for p, q in zip(a, w):
        if q == 0.0:
            prof += p
        elif p > 0:
            items.append((p / q, p, q))
    items.sort(reverse=True)
    left = float(cap)
    for _, p, q in items:
        t = min(1.0, max(0.0, left / q))
        prof += p * t
        left -= q * t
        if left <= 0:
            break
    return prof


def table(H):
    import numpy as np
    V = build(H)
    rng = H.rng
    for it in range(H.scale(400, 8000)):
        if not H.more(0.6):
            break
        light = it % 5 == 4
        A, b, c = data(rng, light=light)
        S, m, n = A.shape
        inp = dict(A=A, b=b)
        H.case(A.tobytes() + b.tobytes(), dict(A=A, b=b))
        keepA, keepb = A.copy(), b.copy()
        T = H.call('compute_all_violations', inp, V.compute_all_violations, A, b)
        H.check(np.array_equal(A, keepA) and np.array_equal(b, keepb), 'data left alone', inp)
        H.check(T.shape == (S, S, m), 'shape of the table', inp, T.shape)
        for s in range(S):
            for t in range(S):
                for i in range(m):
                    got = float(T[s, t, i])
                    q = dict(inp, s=s, t=t, i=i)
                    if s == t:
                        w = min([0.0] + [knap(A[s, i], b[s, i], A[s, l], b[s, l]) for l in range(m) if l != i])
                    else:
                        w = min(knap(A[s, i], b[s, i], A[t, l], b[t, l]) for l in range(m))
                    tol = 1e-5 * max(1.0, abs(w), float(A.max()))
                    H.check(got >= w - tol if light else abs(got - w) <= tol, 'entry: smallest single-constraint knapsack value', q, got, w)
                    if it % 4 == 0 and not light:
                        v = common.lp_max(A[s, i], list(A[t]), list(b[t]), True, n)
                        if v is not None:
                            H.check(got >= v[0] - b[s, i] - tol, 'entry at least the violation at points satisfying the other scenario',
                                    q, got, v[0] - b[s, i])
    # the repository's own reference
    ref = repo('src.song_big_m')
    for _ in range(H.scale(20, 200)):
        A, b, c = data(rng)
        T = V.compute_all_violations(A, b)
        with common.quiet():
            U = ref.compute_all_violations(A, b)
        for s in range(len(A)):
            for t in range(len(A)):
                if s != t:
                    H.check(np.allclose(T[s, t], U[s, t], atol=1e-5 * max(1, A.max())), 'same as the reference implementation',
                            dict(A=A, b=b, s=s, t=t), T[s, t], U[s, t])


def worst(ci, part, a, b, k):
    """largest violation over box points violating at most k of the subsets"""
    best = None
    for out in itertools.combinations(range(len(part)), min(k, len(part))):
        rows = [ci.matrices_A[s, i] for q, sub in enumerate(part) if q not in out for s in sub for i in range(ci.vectors_b.shape[1])]
        rhs = [ci.vectors_b[s, i] for q, sub in enumerate(part) if q not in out for s in sub for i in range(ci.vectors_b.shape[1])]
        v = common.lp_max(a, rows, rhs, True, ci.nb_vars)
        if v is not None:
            best = v[0] - b if best is None else max(best, v[0] - b)
    return best


def bigm(H):
    import numpy as np
    build(H)
    rng = H.rng
    B = repo('src.BigMFinder').BigMFinder
    PI = repo('src.instance.PartitionChanceKnapInstance').PartitionChanceKnapInstance
    for it in range(H.scale(50, 1200)):
        if not H.more(0.97):
            break
        A, b, c = data(rng, it % 4 == 3)
        S, m, n = A.shape
        eps = round(rng.randrange(0, S) / S + rng.choice([0.0, 0.0, 0.01]), 2)
        if eps >= 1:
            eps = 0.5
        ci = common.load(A, b[0], c, rng.random() < 0.5, eps)
        ci.vectors_b = b
        k = common.tol_count(eps, S)
        P = PI(ci)
        f = None
        for rep in range(2):
            plain = rep == 0 and S <= 5 and rng.random() < 0.5
            part = [[s] for s in range(S)] if plain else common.rand_partition(rng, S, rng.randint(min(S, k + 1), min(S, k + 2) if S > 5 else S))
            inp = dict(common.describe(ci), partition=None if plain else part, rep=rep)
            H.case(str(inp), dict(partition=part, tolerated=k))
            if plain:
                g = H.call('BigMFinder', inp, B, ci)
                H.call('run_song_et_al_big_m', inp, g.run_song_et_al_big_m, ci)
            else:
                with common.quiet():
                    P.load_partition(len(part), part)
                f = f or H.call('BigMFinder', inp, B, P)
                g = f
                H.call('update_big_M', inp, g.update_big_M, len(part), None, method='song', chance_instance=ci, partition=part)
            for q, sub in enumerate(part):
                M = g.get_vector_big_M(q)
                H.check(len(M) == len(sub) * m, 'one big-M per constraint', inp, M)
                for j in range(len(M)):
                    s, i = sub[j // m], j % m
                    w = worst(ci, part, ci.matrices_A[s, i], float(ci.vectors_b[s, i]), k)
                    if w is not None:
                        H.check(float(M[j]) >= w - 1e-5 * max(1, abs(w)), 'big-M at least the violation at chance-feasible points',
                                dict(inp, subset=q, constraint=j), M[j], w)


PARTS = [table, bigm]
