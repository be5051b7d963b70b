"""C01: loading a generated file, compared with the file's own cells"""
import math
import os

import common
from common import repo

RULE = ("generated files: all shapes (n, m, S) up to 4x4x4 plus random larger ones, values integer / one decimal / "
        "several decimals / large / negative / exponent notation, with and without extra header cells, both variable "
        "types, epsilons in [0,1); distinct by shape, style, variable type")


def cell(rng, style):
    if style == 'int':
        return str(rng.randint(0, 200))
    if style == 'dec1':
        return '%.1f' % (rng.randint(0, 900) / 10)
    if style == 'dec4':
        return '%.4f' % (rng.random() * 50)
    if style == 'half':
        return '%.2f' % (rng.randint(0, 99) + 0.05 + rng.randint(0, 9) / 10)
    if style == 'big':
        return repr(rng.random() * 1e5)
    if style == 'neg':
        return repr(rng.random() * 20 - 10)
    return '%e' % (rng.random() * 30)


def one(H, n, m, S, style, cont, eps, extra, spaces=False):
    rng = H.rng
    rows = [[cell(rng, style) for _ in range(n)] for _ in range(1 + S * m)] + [[cell(rng, style) for _ in range(m)]]
    head = [str(n), str(m), str(S)] + extra
    p = os.path.join(common.SCRATCH, 'file %d-%d.x-%d.csv' % (n, m, S))
    sep = ', ' if spaces else ','
    with open(p, 'w', newline='\n') as f:
        f.write('\n'.join(sep.join(r) for r in [head] + rows) + '\n')
    inp = dict(header=head, rows=rows if len(rows) < 30 else rows[:30], continuous=cont, epsilon=eps)
    import numpy as np
    K = repo('src.instance.ChanceKnapInstance').ChanceKnapInstance
    H.case((n, m, S, style, cont), inp)
    ci = H.call('loading a well-formed file', inp, K, p, cont, eps)
    rd = lambda t: float(np.round(float(t), 1))
    num = [[rd(t) for t in r] for r in rows]
    H.check(ci.get_nb_vars() == n, 'number of variables', inp, ci.get_nb_vars(), n)
    H.check(ci.get_nb_scenarios() == S, 'number of scenarios', inp, ci.get_nb_scenarios(), S)
    for s in range(S):
        H.check(ci.get_nb_constraints(s) == m, 'constraints per scenario', inp, ci.get_nb_constraints(s), m)
    H.check(np.shape(ci.get_vector_c()) == (n,) and list(ci.get_vector_c()) == num[0], 'objective', inp,
            ci.get_vector_c(), num[0])
    H.check(np.shape(ci.get_matrices_A()) == (S, m, n), 'shape of the matrices', inp, np.shape(ci.get_matrices_A()), (S, m, n))
    H.check(np.shape(ci.get_vectors_b()) == (S, m), 'shape of the right-hand sides', inp, np.shape(ci.get_vectors_b()), (S, m))
    for s in range(S):
        w = num[1 + s * m:1 + (s + 1) * m]
        H.check(np.array_equal(ci.get_matrices_A()[s], w), 'matrix of scenario %d' % s, inp, ci.get_matrices_A()[s], w)
        H.check(np.array_equal(ci.get_matrix_A(s), w), 'get_matrix_A(%d)' % s, inp, ci.get_matrix_A(s), w)
        H.check(np.array_equal(ci.get_vectors_b()[s], num[-1]), 'rhs of scenario %d' % s, inp, ci.get_vectors_b()[s], num[-1])
        H.check(np.array_equal(ci.get_vector_b(s), num[-1]), 'get_vector_b(%d)' % s, inp, ci.get_vector_b(s), num[-1])
    pr = list(ci.get_proba())
    H.check(len(pr) == S and all(common.close(v, 1 / S, 1e-12) for v in pr), 'probabilities', inp, pr, 1 / S)
    vt = list(ci.get_var_type())
    H.check(len(vt) == n and all(bool(v) == cont for v in vt), 'variable type', inp, vt, cont)
    lb, ub = list(ci.get_var_lb()), list(ci.get_var_ub())
    if cont:
        H.check(len(lb) == n and all(v == 0 for v in lb), 'lower bounds', inp, lb, 0)
        H.check(len(ub) == n and all(v == 1 for v in ub), 'upper bounds', inp, ub, 1)
    else:
        H.check(len(lb) == n and all(v <= 0 for v in lb), 'lower bounds', inp, lb, '<= 0')
        H.check(len(ub) == n and all(v >= 1 for v in ub), 'upper bounds', inp, ub, '>= 1')
    H.check(ci.get_epsilon() == eps, 'epsilon', inp, ci.get_epsilon(), eps)
    H.check(ci.get_file_name() == os.path.basename(p)[:-4], 'name of the instance', inp, ci.get_file_name())
    # entries of different scenarios are independent of each other
    if S > 1:
        b = ci.get_vectors_b()
        old = b[1].copy()
        b[0] = b[0] + 1
        H.check(np.array_equal(b[1], old), 'right-hand sides of scenarios share storage', inp)
    os.unlink(p)


STY = ['int', 'dec1', 'dec4', 'half', 'big', 'neg', 'exp']


def small(H):
    k = 0
    for n in range(1, 5):
        for m in range(1, 5):
            for S in range(1, 5):
                k += 1
                one(H, n, m, S, STY[k % len(STY)], k % 2 == 0, [0.1, 0.0, 0.2, 0.05][k % 4],
                    [['1000'], [], ['1000', '0', '5']][k % 3], k % 5 == 0)


def rnd(H):
    for k in range(H.scale(250, 6000)):
        if not H.more(0.9):
            return
        r = H.rng
        one(H, r.randint(1, 12), r.randint(1, 8), r.randint(1, 30), r.choice(STY), r.random() < 0.5,
            r.choice([0.0, 0.1, 0.2, 0.35, 0.9, 0.123]), r.choice([['1000'], [], ['7', '8']]), r.random() < 0.2)
    for shape in [(1, 1, 200), (40, 1, 3), (2, 30, 2), (10, 5, 100)]:
        one(H, *shape, 'dec1', True, 0.1, ['1000'])


def shipped(H):
    """the instances shipped with the repository and its tests"""
    import csv
    import numpy as np
    K = repo('src.instance.ChanceKnapInstance').ChanceKnapInstance
    fs = []
    for d, _, names in os.walk(common.REPO):
        if '.git' in d.split(os.sep):
            continue
        fs += [os.path.join(d, f) for f in names if f.endswith('.csv')]
    for p in sorted(fs)[:H.scale(6, 40)]:
        if not H.more(0.95) or os.path.getsize(p) > 30e6:
            break
        raw = open(p).read().split('\n')
        cells = [[float(x) for x in l.split(',')] for l in raw if l]
        n, m, S = (int(v) for v in cells[0][:3])
        if len(cells) != 3 + S * m:
            continue
        inp = dict(file=os.path.relpath(p, common.REPO))
        ci = H.call('loading a shipped file', inp, K, p, True, 0.1)
        H.case(p, inp)
        w = np.round(np.array(cells[2:2 + S * m]), 1).reshape(S, m, n)
        H.check(np.array_equal(ci.get_matrices_A(), w), 'matrices of a shipped file', inp)
        H.check(np.array_equal(ci.get_vectors_b(), np.tile(np.round(cells[-1], 1), (S, 1))), 'rhs of a shipped file', inp)
        H.check(np.array_equal(ci.get_vector_c(), np.round(cells[1], 1)), 'objective of a shipped file', inp)


PARTS = [small, rnd, shipped]
