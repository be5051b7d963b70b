"""C18: result rows of every method and configuration, the runner's file names, the exporter's reading of them"""
import csv
import itertools
import json
import math
import os
import random
import runpy
import shutil
import signal
import subprocess
import sys

import common
import adaptive
from common import repo, quiet

RULE = ("rows written after real runs of every method and configuration on small instances (and with given bounds, times "
        "and settings); main.py as a process for all four methods; main.py in-process for every epsilon in whole percent, "
        "both variable types and all methods, the exporter then reads the file; export_results.py on a full set of "
        "synthetic rows in a scratch copy")


def read_row(H, inp, path):
    H.check(os.path.exists(path), 'a result file is written', inp, os.listdir(os.path.dirname(path)))
    with open(path) as f:
        rows = list(csv.reader(f))
    rows = [r for r in rows if r]
    H.check(len(rows) == 1, 'exactly one result row', inp, rows)
    return rows[0]


def flt(H, inp, clause, text, want, tol=6e-4):
    try:
        got = float(text)
    except ValueError:
        H.fail(clause + ' is a number', inp, text, want)
    if math.isinf(want):
        H.check(got == want, clause, inp, text, want)
    else:
        H.check(abs(got - want) <= tol + 1e-9 * abs(want), clause, inp, text, want)


def gap(lb, ub):
    if math.isinf(lb) or math.isinf(ub):
        return math.inf
    if lb == ub:
        return 0.0
    return math.inf if lb == 0 else (ub - lb) / abs(lb)


def head(H, inp, row, ci, name, m):
    n, mm, S = ci.nb_vars, ci.vectors_b.shape[1], ci.nb_scenarios
    H.check(row[0] == name, 'column 0: instance name', inp, row[0], name)
    for k, w in [(1, n), (2, mm), (3, S), (4, int(bool(ci.continuous_var)))]:
        flt(H, inp, 'column %d' % k, row[k], w, 0)
    flt(H, inp, 'column 5: epsilon', row[5], ci.epsilon)
    flt(H, inp, 'column 6: time limit', row[6], m.time_limit)
    flt(H, inp, 'column 7: required gap in percent', row[7], m.gap * 100)


def tail(H, inp, row, lb, ub, total):
    flt(H, inp, 'last column: gap in percent', row[-1], 100 * gap(lb, ub), max(6e-4, 1e-6 * abs(100 * gap(lb, ub)) if not math.isinf(gap(lb, ub)) else 1))
    flt(H, inp, 'second last column: upper bound', row[-2], ub)
    flt(H, inp, 'third last column: lower bound', row[-3], lb)
    flt(H, inp, 'fourth last column: run time', row[-4], total)


def named(ci, name):
    for a in ('file_location',):
        if hasattr(ci, a):
            setattr(ci, a, os.path.join('/data', 'x', name + '.csv'))
    return name


BMETH = {'naive': 1, 'belotti': 2, 'song': 3}
CODE = {'counter': 1, 'random': 2, 'cost': 3, 'rescaled_max_violation': 5}


def rows(H):
    rng = H.rng
    MS = repo('src.solver.MilpSolver').MilpSolver
    TM = repo('src.TimeManager').TimeManager
    out = os.path.join(common.SCRATCH, 'row.csv')
    for it in range(H.scale(60, 600)):
        if not H.more(0.3):
            break
        ci = common.rand_instance(rng, S=rng.randint(2, 7), m=rng.randint(1, 3), n=rng.randint(2, 4), eps=rng.choice([0.29, 0.2, 0.4, 0.07, 0.57]))
        name = named(ci, 'ccmknap-%d-x.%d' % (it, it))
        lim, g = rng.choice([60, 1800.5]), rng.choice([1e-4, 1e-3, 0.0])
        if it % 2:
            use, meth = rng.choice([(True, 'naive'), (True, 'belotti'), (True, 'song'), (False, 'naive')])
            inp = dict(common.describe(ci), method='MilpSolver', use_big_m=use, big_m_method=meth, limit=lim, gap=g)
            m = H.call('MilpSolver', inp, lambda: MS(ci, time_limit=lim, gap=g))
            H.call('solve', inp, lambda: m.solve(use_big_m=use, big_m_method=meth))
        else:
            o, so = rng.choice(adaptive.OPTS), rng.choice(adaptive.SOLVE)
            o = dict(o, projection_method=rng.choice(['counter', 'rescaled_max_violation']), gap=g)
            inp = dict(common.describe(ci), method='AdaptivePartitioner', options=o, solve=so, limit=lim)
            R = adaptive.Recorder(ci, o, so, it, limit=lim)
            H.call('run', inp, lambda: (R.build(), R.solve()))
            m = R.m
        H.case(str(inp), inp)
        H.call('set_final_time', inp, TM.set_final_time)
        # other bounds, times and iteration counts as well
        for k in range(3):
            if k:
                lo = rng.choice([-12.5, 0.0, 3.25, 1234.567, -math.inf])
                hi = rng.choice([lo, lo + 0.5, lo + 100]) if not math.isinf(lo) else 55.5
                m.vLB, m.vUB = lo, hi
                TM.final_time = TM.start_time + rng.choice([0.0, 12.3456, 3600.0])
                if it % 2:
                    m.big_m_time = rng.choice([1.5, 77.7])
                else:
                    m.iteration = rng.randint(1, 99)
            if os.path.exists(out):
                os.unlink(out)
            inp2 = dict(inp, vLB=m.vLB, vUB=m.vUB)
            H.call('write_all_computation_details', inp2, m.write_all_computation_details, out)
            row = read_row(H, inp2, out)
            head(H, inp2, row, ci, name, m)
            tail(H, inp2, row, m.vLB, m.vUB, TM.final_time - TM.start_time)
            flt(H, inp2, 'column 8: big-M used', row[8], int(use) if it % 2 else int(so.get('use_big_M', False)), 0)
            if it % 2:
                H.check(len(row) == 15, 'number of columns', inp2, row, 15)
                if use:
                    flt(H, inp2, 'column 9: big-M method', row[9], BMETH[meth], 0)
                flt(H, inp2, 'column 10: big-M time', row[10], m.big_m_time)
            else:
                H.check(len(row) == 18, 'number of columns', inp2, row, 18)
                w = [CODE[o['split_method']], CODE[o['initial_partition_type']], CODE[o['projection_method']]]
                H.check([float(v) for v in row[9:12]] == w, 'columns 9 to 11: method settings', inp2, row[9:12], w)
                flt(H, inp2, 'sixth last column: iterations', row[-6], m.iteration, 0)
                flt(H, inp2, 'fifth last column: size of the partition', row[-5], len(m.partition), 0)


def stopped(H):
    """the time limit is reached before the first iteration: a row all the same"""
    rng = H.rng
    TM = repo('src.TimeManager').TimeManager
    out = os.path.join(common.SCRATCH, 'stopped.csv')
    for it in range(H.scale(6, 24)):
        ci = common.rand_instance(rng, S=rng.randint(2, 7), m=rng.randint(1, 3), n=rng.randint(2, 4), eps=rng.choice([0.29, 0.2, 0.4]))
        name = named(ci, 'ccmknap-%d-x' % it)
        o, so = adaptive.OPTS[it % len(adaptive.OPTS)], adaptive.SOLVE[it % len(adaptive.SOLVE)]
        inp = dict(common.describe(ci), options=o, solve=so, stopped='while the initial partition is evaluated')
        R = adaptive.Recorder(ci, o, so, it, limit=60)
        H.call('build', inp, R.build)
        m = R.m

        def stop(*a):
            raise KeyboardInterrupt
        m.evaluator.partition_cost = stop
        with quiet():
            try:
                R.solve()
            except KeyboardInterrupt:
                pass
        H.case(str(inp), inp)
        H.call('set_final_time', inp, TM.set_final_time)
        if os.path.exists(out):
            os.unlink(out)
        H.call('write_all_computation_details', inp, m.write_all_computation_details, out)
        row = read_row(H, inp, out)
        H.check(len(row) == 18, 'number of columns', inp, row, 18)
        head(H, inp, row, ci, name, m)
        tail(H, inp, row, m.vLB, m.vUB, TM.final_time - TM.start_time)


def names(H):
    """main.py writes the file the exporter looks for, for every epsilon in whole percent"""
    F = repo('src.export.format_results')
    mods = {k: repo(k) for k in ('src.solver.MilpSolver', 'src.solver.AdaptivePartitioner', 'src.instance.ChanceKnapInstance', 'src.BigMFinder')}
    rng = H.rng
    out = os.path.join(common.SCRATCH, 'tables') + '/'
    inst = os.path.join(common.SCRATCH, 'ccmknap-2-1-3-4.csv')
    shutil.copy(common.write_instance([[[1.0, 2.0]], [[2.0, 1.0]], [[1.5, 1.5]]], [2.0], [3.0, 4.0]), inst)
    log = {}

    class Fake:
        def __init__(self, ci, **k):
            log['ci'], log['k'] = ci, k
            self.chance_instance_part = ci

        def solve(self, *a, **k):
            log['solve'] = k

        def write_all_computation_details(self, p):
            with open(p, 'w') as f:
                f.write('name,' + ','.join(str(log['token'] + q) for q in range(8)) + '\n')

        def write_iteration_details(self, p):
            pass

    class BM:
        def __init__(self, *a, **k):
            pass
    saved = [(mods['src.solver.MilpSolver'], 'MilpSolver'), (mods['src.solver.AdaptivePartitioner'], 'AdaptivePartitioner'), (mods['src.BigMFinder'], 'BigMFinder')]
    saved = [(m, a, getattr(m, a)) for m, a in saved]
    argv = sys.argv
    old = signal.getsignal(signal.SIGALRM)
    env = dict(os.environ)
    state = random.getstate()
    try:
        for m, a, _ in saved:
            setattr(m, a, Fake if a != 'BigMFinder' else BM)
        for pc in range(0, 100):
            for cont in (0, 1):
                for meth in (1, 2, 3, 4) if (pc % 7 == 0 or H.thorough) else (1 + pc % 4,):
                    for d in (out,):
                        if os.path.isdir(d):
                            shutil.rmtree(d)
                    e = pc / 100
                    log['token'] = rng.randint(1, 10 ** 6)
                    text = rng.choice([repr(e), '%.2f' % e])
                    sys.argv = ['main.py', inst, str(cont), text, str(meth), out]
                    inp = dict(args=sys.argv[1:])
                    H.case((pc, cont, meth), inp)
                    H.call('main.py', inp, runpy.run_path, os.path.join(common.REPO, 'main.py'), run_name='__main__')
                    signal.alarm(0)
                    row = H.call('read_single_experiment', inp, F.read_single_experiment, out, 'ccmknap-2-1', 3, 4, e, cont, meth)
                    H.check(len(row) == 9 and row[1:] == [float(log['token'] + q) for q in range(8)] and row[0] == 'name',
                            'the exporter finds the row the runner wrote', inp, dict(read=row, files=os.listdir(out)))
                    H.check(abs(log['ci'].epsilon - e) < 1e-12 and bool(log['ci'].continuous_var) == bool(cont), 'instance loaded as asked', inp)
                    for wrong in [(e + 0.01, cont, meth), (e, 1 - cont, meth), (e, cont, 1 + meth % 4)]:
                        with quiet():
                            r = F.read_single_experiment(out, 'ccmknap-2-1', 3, 4, *wrong)
                        H.check(r == [], 'no other configuration reads this row', dict(inp, wrong=wrong), r)
    finally:
        sys.argv = argv
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        random.setstate(state)
        for k in set(os.environ) - set(env):
            del os.environ[k]
        for m, a, v in saved:
            setattr(m, a, v)


STUB = """import numpy as np
def compute_all_violations(A, b):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        import src.song_big_m as ref
        return ref.compute_all_violations(np.asarray(A), np.asarray(b))
"""


def process(H):
    """the experiment runner as a process, all methods"""
    F = repo('src.export.format_results')
    d = os.path.join(common.SCRATCH, 'proc')
    os.makedirs(os.path.join(d, 'stub'))
    with open(os.path.join(d, 'stub', 'violations.py'), 'w') as f:
        f.write(STUB)
    boot = ("import sys,runpy; sys.path.insert(0,%r); sys.path.insert(0,%r); sys.argv=['main.py']+sys.argv[1:]; "
            "runpy.run_path(%r, run_name='__main__')" % (common.REPO, os.path.join(d, 'stub'), os.path.join(common.REPO, 'main.py')))
    rng = H.rng
    jobs = []
    for k in range(H.scale(8, 32)):
        meth, cont, pc = 1 + k % 4, (k // 4) % 2, rng.choice([29, 57, 7, 40, 20, 14, 28, 55])
        S, m, n = rng.randint(5, 9), rng.randint(1, 3), rng.randint(3, 5)
        A, b, c = common.rand_data(rng, S, m, n, 'plain')
        p = os.path.join(d, 'ccmknap-%d-%d-%d-%d.csv' % (n, m, S, k))
        os.rename(common.write_instance(A, b, c), p)
        out = os.path.join(d, 'results', 't%d' % k) + '/'
        e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        pr = subprocess.Popen([sys.executable, '-B', '-c', boot, p, str(cont), str(pc / 100), str(meth), out], cwd=d, env=e,
                              stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
        jobs.append((pr, out, n, m, S, k, pc, cont, meth, p))
    for pr, out, n, m, S, k, pc, cont, meth, p in jobs:
        try:
            err = pr.communicate(timeout=120)[1].decode(errors='replace')
        except subprocess.TimeoutExpired:
            pr.kill()
            H.skip('a run of main.py took too long')
            continue
        inp = dict(instance=open(p).read(), continuous=cont, percent=pc, method=meth)
        H.case((n, m, S, k, pc, cont, meth), inp)
        H.check(pr.returncode == 0, 'main.py finishes', inp, err[-1500:])
        row = H.call('read_single_experiment', inp, F.read_single_experiment, out, 'ccmknap-%d-%d' % (n, m), S, k, pc / 100, cont, meth)
        H.check(len(row) == (15 if meth < 3 else 18), 'the exporter reads the row of the runner', inp, dict(row=row, files=os.listdir(out)))
        H.check([float(v) for v in row[1:6]] == [n, m, S, cont, pc / 100], 'dimensions in the row', inp, row)
        lb, ub, gp = row[-3], row[-2], row[-1]
        K = repo('src.instance.ChanceKnapInstance').ChanceKnapInstance
        with quiet():
            ci = K(p, bool(cont), pc / 100)
        best, _ = common.cclp_opt(ci)
        H.check(abs(lb - best) <= 1e-3 + 3e-4 * abs(best) and abs(ub - best) <= 1e-3 + 3e-4 * abs(best), 'bounds in the row', inp, row, best)
        H.check(gp <= 1e-2 + 1e-3 and 0 <= row[-4] < 120, 'gap and time in the row', inp, row)
        H.check((row[9] == {1: 3, 2: 2}[meth] and 0 <= row[10] <= row[-4] + 1e-2) if meth < 3 else row[-6] >= 1, 'method columns', inp, row)


def fmt(H):
    F = repo('src.export.format_results')
    rng = H.rng
    for _ in range(H.scale(3000, 40000)):
        k = rng.randint(1, 6)
        meth = rng.choice([1, 2, 3, 4])
        req = rng.choice([0.01, 0.5, 0.0])
        ids = range(1, k + 1)
        if rng.random() < 0.3:
            ids = sorted(rng.sample(range(1, k + 1), rng.randint(1, k)))
        res = []
        mode = rng.random()
        for j in range(k):
            g = rng.choice([0.0, req, req / 2]) if mode < 0.4 else rng.choice([0.0, req, req + 1e-3, req * 2 + 0.25, 12.5, req - 1e-3 if req else 0.0])
            res.append(['nm'] + [rng.random() * 100 for _ in range(14 if meth < 3 else 17)])
            res[-1][-1] = g
            if meth > 2:
                res[-1][-6] = float(rng.randint(1, 40))
        inp = dict(rows=res, method=meth, ids=list(ids), required=req)
        H.case(str(inp), dict(method=meth, gaps=[r[-1] for r in res]), nontrivial=k > 1)
        keep = json.loads(json.dumps(res))
        t, nb, gp, tab = H.call('format_method', inp, F.format_method, res, meth, ids, req, [1, 2], [3, 4])
        sel = [res[j - 1] for j in ids]
        solved = [r[-1] <= req + 1e-7 for r in sel]
        H.check(nb == sum(solved), 'number of solved runs', inp, nb, sum(solved))
        mean = lambda c: sum(r[c] for r in sel) / len(sel)
        if all(solved):
            H.check(abs(t - mean(-4)) < 1e-9 and gp == math.inf, 'mean time when all are solved', inp, (t, gp), mean(-4))
            H.check(tab[0] == '%.2fs' % mean(-4), 'table entry', inp, tab, mean(-4))
        else:
            H.check(t == math.inf and abs(gp - mean(-1)) < 1e-9, 'mean gap when some are not solved', inp, (t, gp), mean(-1))
            H.check(tab[0] == '%.2f\\%%(%d)' % (mean(-1), sum(solved)), 'table entry', inp, tab)
        if meth > 2:
            H.check(len(tab) == 2 and abs(tab[1] - mean(-6)) < 1e-9, 'mean number of iterations', inp, tab, mean(-6))
        else:
            H.check(len(tab) == 1, 'one entry for the extended formulation', inp, tab)
        H.check(res == keep, 'rows left alone', inp)


def export(H):
    """export_results.py on a complete set of rows"""
    d = os.path.join(common.SCRATCH, 'exp')
    os.makedirs(os.path.join(d, 'results', 'tables'))
    os.makedirs(os.path.join(d, 'src', 'export'))
    shutil.copy(os.path.join(common.REPO, 'export_results.py'), d)
    shutil.copy(os.path.join(common.REPO, 'src', 'export', 'format_results.py'), os.path.join(d, 'src', 'export'))
    rng = H.rng
    data = {}
    miss = ('ccmknap-20-10', 3000)
    for c in (0, 1):
        for i in ("ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30"):
            for s in (500, 1000, 3000, 5000):
                for j in range(1, 6):
                    for e in (10, 20):
                        for m in (1, 2, 3, 4):
                            if (i, s) == miss and m == 2 and j == 3 and e == 20:
                                continue
                            row = ['%s-%d-%d' % (i, s, j)] + [round(rng.random() * 100, 3) for _ in range(14 if m < 3 else 17)]
                            row[-1] = rng.choice([0.0, 0.01, 0.004]) if rng.random() < 0.93 else 3.5
                            data[c, i, s, j, e, m] = row
                            with open(os.path.join(d, 'results', 'tables', '%s-%d-%d-%d-%d-%d.csv' % (i, s, j, e, c, m)), 'w') as f:
                                csv.writer(f).writerow(row)
    r = subprocess.run([sys.executable, '-B', os.path.join(d, 'export_results.py')], cwd=d, stdout=subprocess.DEVNULL,
                       stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=120, env=dict(os.environ, PYTHONPATH=d))
    inp = dict(what='export_results.py on synthetic rows')
    H.check(r.returncode == 0, 'export_results.py finishes', inp, r.stderr.decode(errors='replace')[-1500:])
    for c in (0, 1):
        for i in ("ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30"):
            p = os.path.join(d, 'results', '%s-%d-result-table.csv' % (i, c))
            H.check(os.path.exists(p), 'result table written', inp, os.listdir(os.path.join(d, 'results')))
            tab = [row for row in csv.reader(open(p)) if row]
            H.check(len(tab) == 8, 'rows of a result table', inp, tab)
            k = 0
            for e in (10, 20):
                for s in (500, 1000, 3000, 5000):
                    row = tab[k]
                    k += 1
                    H.case((c, i, e, s), nontrivial=True)
                    H.check(row[2] == str(s), 'scenario column', inp, row)
                    want, time_, solved, gaps = [], [], [], []
                    for m in (1, 2, 3, 4):
                        rs = [data.get((c, i, s, j, e, m)) for j in range(1, 6)]
                        if None in rs:
                            want += ['-'] if m < 3 else ['nan', 'nan']
                            time_.append(math.inf), solved.append(0), gaps.append(math.inf)
                            continue
                        ok = [x[-1] <= 0.01 + 1e-7 for x in rs]
                        if all(ok):
                            t = sum(x[-4] for x in rs) / 5
                            want.append('%.2fs' % t)
                            time_.append(t), solved.append(5), gaps.append(math.inf)
                        else:
                            g = sum(x[-1] for x in rs) / 5
                            want.append('%.2f\\%%(%d)' % (g, sum(ok)))
                            time_.append(math.inf), solved.append(sum(ok)), gaps.append(g)
                        if m > 2:
                            want.append(sum(x[-6] for x in rs) / 5)
                    for a, w in zip(row[3:], want):
                        a = a.replace('\\textbf{', '').rstrip('}') if a.startswith('\\textbf') else a
                        if isinstance(w, float):
                            H.check(abs(float(a) - w) < 1e-9, 'iterations in the table', dict(inp, row=row, want=want))
                        else:
                            H.check(a == w, 'entry of the table', dict(inp, row=row, want=want), a, w)
                    best = min(range(4), key=lambda q: (time_[q], )) if min(time_) < math.inf else min(
                        [q for q in range(4) if solved[q] == max(solved)], key=lambda q: gaps[q])
                    bold = [q for q, a in enumerate(row) if a.startswith('\\textbf')]
                    H.check(bold == [[3, 4, 5, 7][best]], 'best method in bold', dict(inp, row=row), bold, best)
    for i in ("ccmknap-10-10", "ccmknap-20-10", "ccmknap-40-30"):
        tab = [row for row in csv.reader(open(os.path.join(d, 'results', i + '-big-m-times.csv'))) if row]
        for k, s in enumerate((500, 1000, 3000, 5000)):
            def mean(cs, m):
                v = [data.get((c, i, s, j, e, m)) for c in cs for j in range(1, 6) for e in (10, 20)]
                return None if None in v else sum(x[10] for x in v) / len(v)
            want = [mean((0, 1), 1), mean((1,), 2), mean((0,), 2)]
            H.check(tab[k][1:2] == [str(s)] and [x for x in tab[k][2:]] == ['-' if w is None else '%.2fs' % w for w in want],
                    'big-M times', dict(inp, row=tab[k]), tab[k], want)


PARTS = [rows, stopped, fmt, export, process, names]
