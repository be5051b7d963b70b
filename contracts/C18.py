"""C18: result rows, file names of the runner and the exporter, the exporter's summary"""
import ast
import itertools
import os
import re
from dv.spec import *
from dv import hoare
from dv.interp import IteV, FuncV, ExcType
from dv.core import StrV, str_parts, mkstr

CODE = {'counter': 1, 'random': 2, 'cost': 3, 'rescaled_max_violation': 5}
BMETH = {'naive': 1, 'belotti': 2, 'song': 3}
THOUSANDTH = Fraction(1, 1000)


# ------------------------------------------------------------------ what a cell of a row reads as
def atom(name):
    return ('atom', name)


def number_part(r, p):
    """the number a formatted part reads as"""
    if p[0] == 'fmt':
        spec, v = p[1], p[2]
        if spec == 'str':
            return v
        m = re.fullmatch(r'0*\.?(\d*)f', spec) if isinstance(spec, str) else None
        if m and spec.startswith('.'):
            return rounded(r, v, int(m.group(1) or 6))
    if p[0] == 'pct':
        m = re.fullmatch(r'%\.(\d+)f', p[1])
        if m and len(p) == 3:
            return rounded(r, p[2], int(m.group(1)))
        if p[1] in ('%s', '%d') and len(p) == 3:
            return p[2]
    return None


def rounded(r, v, d):
    """v rounded to d decimals: any value at most half a unit away"""
    if isinstance(v, XR):
        return XR(v.p, v.n, rounded(r, v.v, d))
    h = Fraction(1, 2 * 10 ** d)
    if d == 0:
        k = r.ctx.fresh('shown', I)
    else:
        k = r.ctx.fresh('shown', RS)
    r.assume(b_and(cmp_('<=', arith('-', v, h), k), cmp_('<=', k, arith('+', v, h))))
    return k


def reads(r, cell):
    if isinstance(cell, IteV):
        a, b = reads(r, cell.a), reads(r, cell.b)
        return None if a is None or b is None else ite(cell.c, a, b)
    if isinstance(cell, bool):
        return None
    if isinstance(cell, str):
        try:
            return Fraction(cell)
        except ValueError:
            return {'inf': PINF, '-inf': NINF}.get(cell)
    if isinstance(cell, StrV):
        return number_part(r, cell.parts[0]) if len(cell.parts) == 1 else None
    return cell if is_numlike(cell) and not is_boolv(cell) else None


def near(r, got, want, tol=THOUSANDTH):
    g, w = [v if isinstance(v, XR) else XR(False, False, toreal(v)) for v in (got, want)]
    same = lambda u, v: b_and(b_or(u, b_not(v)), b_or(v, b_not(u)))
    d = arith('-', g.v, w.v)
    return b_and(same(T(g.p), T(w.p)), same(T(g.n), T(w.n)),
                 b_or(g.p, g.n, b_and(cmp_('<=', d, tol), cmp_('<=', neg(tol), d))))


def column(r, name, row, k, want, tol=THOUSANDTH):
    if not 0 <= k < len(row):
        r.ensure(name, False)
        return
    v = reads(r, row[k])
    r.ensure(name, False if v is None else near(r, v, want, tol))


# ------------------------------------------------------------------ rows
def the_gap(r, lb, ub):
    """gap in percent, for finite bounds"""
    d = ite(cmp_('<', lb, 0), neg(lb), lb)
    g = arith('*', 100, arith('/', arith('-', ub, lb), ite(cmp_('==', d, 0), Fraction(1), d)))
    return g


def check_row(r, path, vLB, vUB, I_, o, total, use, tl, gap):
    w = r.it.written
    ok = len(w) == 1 and w[0][2] is True or len(w) == 1 and r.ctx.prove_quick(w[0][2], ms=2000)
    r.ensure('exactly one row is written', bool(ok))
    if not ok:
        return None
    p, row, _ = w[0]
    r.ensure('at the place asked for', isinstance(p, (str, StrV)) and str_parts(p) == str_parts(path))
    r.ensure('the file is written anew', len(r.opened) == 1 and str(r.opened[0]).startswith('w'))
    q = seq_of(r.it.content(row)) if not isinstance(row, tuple) else Lit(list(row))
    if not isinstance(q, Lit):
        r.ensure('a row of fixed length', False)
        return None
    row = list(q.items)
    r.ensure('column 0: the instance name', isinstance(row[0], (str, StrV)) and str_parts(row[0]) == (atom('instance'),))
    column(r, 'column 1: number of variables', row, 1, I_.n, 0)
    column(r, 'column 2: number of constraints', row, 2, I_.m, 0)
    column(r, 'column 3: number of scenarios', row, 3, I_.S, 0)
    column(r, 'column 4: 1 for continuous variables, 0 for binary ones', row, 4, ite(I_.cont, 1, 0), 0)
    column(r, 'column 5: epsilon', row, 5, I_.eps)
    column(r, 'column 6: time limit', row, 6, tl)
    column(r, 'column 7: required gap in percent', row, 7, arith('*', 100, gap))
    column(r, 'column 8: 1 if big-M was used', row, 8, ite(use, 1, 0), 0)
    column(r, 'fourth last column: run time', row, len(row) - 4, total)
    column(r, 'third last column: lower bound', row, len(row) - 3, vLB)
    column(r, 'second last column: upper bound', row, len(row) - 2, vUB)
    g = reads(r, row[-1])
    if g is None:
        r.ensure('last column: gap in percent', False)
        return row
    lb, ub = [v if isinstance(v, XR) else XR(False, False, toreal(v)) for v in (vLB, vUB)]
    inf = b_or(lb.n, ub.p)
    zero = b_and(b_not(inf), cmp_('==', lb.v, ub.v))
    undefd = b_or(inf, b_and(b_not(zero), cmp_('==', lb.v, 0)))
    gx = g if isinstance(g, XR) else XR(False, False, toreal(g))
    r.ensure('last column: infinite gap without both bounds or with lower bound zero', b_or(b_not(undefd), gx.p))
    r.ensure('last column: no gap between equal bounds', b_or(b_not(zero), near(r, gx, 0)))
    r.ensure('last column: gap in percent', b_or(undefd, zero, near(r, gx, the_gap(r, lb.v, ub.v))))
    return row


def setup(r):
    r.opened = []
    r.it.written = []
    r.it.on_open = lambda it, path, mode: r.opened.append(mode)
    I_ = Inst(r)
    r.it.summaries['ChanceInstance.get_file_name'] = lambda it, a, k: StrV([atom('instance')])
    TM = r.cls('src.TimeManager', 'TimeManager')
    L = r.real('limit', 0)
    r.call(TM, 'set_limit_and_start_time', L)
    r.call(TM, 'set_final_time')
    return I_, L, r.call(TM, 'get_total_time')


def out_path():
    return StrV([atom('out'), '.csv'])


def milp_row(use, meth):
    def f(r):
        I_, L, total = setup(r)
        M = r.cls('src.solver.MilpSolver', 'MilpSolver')
        S = r.cls('src.solver.Solver', 'Solver')
        gap = r.real('gap', 0)
        t = r.real('t', 0)
        res = (r.vec('x', I_.n), r.vec('z', I_.S), r.real('v_obj'), r.real('v_bnd'))
        r.it.summaries['Solver.solve_cclp_model'] = lambda it, a, k: res
        for c in ('run_belotti_et_al_big_M', 'run_song_et_al_big_m'):
            r.it.summaries['BigMFinder.' + c] = lambda it, a, k: None
        r.it.summaries['BigMFinder'] = lambda it, a, k: r.obj(r.cls('src.BigMFinder', 'BigMFinder'))
        r.it.summaries['Evaluator.get_all_single_scenario_costs'] = lambda it, a, k: r.lst('costs', I_.S, sort=RS)
        r.it.summaries['UpperBounder.ahmed_et_al_bound'] = lambda it, a, k: r.real('quantile')
        o = r.obj(M, vUB=PINF, vLB=NINF, time_limit=L, gap=gap, chance_instance=I_.ref,
                  evaluator=r.obj(r.cls('src.Evaluator', 'Evaluator')), big_m_finder=r.obj(r.cls('src.BigMFinder', 'BigMFinder')),
                  upper_bounder=r.obj(r.cls('src.UpperBounder', 'UpperBounder')))
        r.canary()
        now = r.it.lib.clock
        b0 = now(r.it)
        r.call(o, 'solve', use_big_m=use, big_m_method=meth)
        spent = r.fld(o, 'big_m_time')
        r.call(o, 'write_all_computation_details', out_path())
        r.no_raise()
        row = check_row(r, out_path(), r.fld(o, 'vLB'), r.fld(o, 'vUB'), I_, o, total, use, L, gap)
        if row is None:
            return
        r.ensure('fifteen columns', len(row) == 15)
        if use:
            column(r, 'column 9: big-M method', row, 9, BMETH[meth], 0)
        column(r, 'column 10: big-M time', row, 10, spent)
        if not use:
            column(r, 'column 10: no time spent on big-M', row, 10, 0)
    return f


STOPPED = '''
def run(o, use, merger):
    try:
        o.solve(None, use_big_M=use, big_m_method='belotti', use_merger=merger)
    except KeyboardInterrupt:
        pass
'''


def ap_row(split, init, proj, merger, stopped=False):
    def f(r):
        I_, L, total = setup(r)
        AP = r.cls('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')
        gap = r.real('gap', 0)
        size = r.int('nb_subsets', 1)
        use = r.bool('use_big_M')
        part = r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'), **I_.fields)
        r.it.setattr(part, 'nb_subsets', size)
        for nm in ('_big_M', '_upper_bound', '_lower_bound', '_split', '_merge', '_improve_vlb_with_candidate_sols'):
            r.it.summaries['AdaptivePartitioner.' + nm] = {
                '_upper_bound': lambda it, a, k: (r.vec('xUB', I_.n), True)}.get(nm, lambda it, a, k: None)
        cost = lambda it, a, k: it.raise_exc('KeyboardInterrupt') if stopped else (r.lst('costs', size, sort=RS), r.lst('sols', size, sort=RS))
        r.it.summaries['TimeManager.get_remaining_time'] = lambda it, a, k: r.real('left', 1)
        o = r.obj(AP, vUB=r.real('vUB'), vLB=r.real('vLB'), xUB=None, zUB=None, time_limit=L, gap=gap, chance_instance=I_.ref,
                  chance_instance_part=part, split_method=split, initial_partition_type=init, projection_method=proj,
                  informer=r.it.call(r.cls('src.Informer', 'Informer'), [], {}), partition=r.lst('partition', size),
                  evaluator=r.obj(r.cls('src.Evaluator', 'Evaluator'), partition_cost=Builtin('partition_cost', cost)))
        r.canary()
        # main.py: a run stopped by the time limit is finished too
        r.it.call(FuncV(ast.parse(STOPPED).body[0], r.it.loader.load(r.it, 'src.solver.AdaptivePartitioner')), [o, use, merger], {})
        r.no_raise()
        if stopped:
            its = r.fld(o, 'iteration')
            column(r, 'no iteration yet', [its], 0, 0, 0)
        else:
            column(r, 'iterations counted from one', [r.fld(o, 'iteration')], 0, 1, 0)
            its = r.int('iterations', 1)
            r.it.setattr(o, 'iteration', its)
        lb = XR(False, r.bool('no lower bound'), r.real('vLB_end'))
        ub = XR(r.bool('no upper bound'), False, r.real('vUB_end'))
        r.it.setattr(o, 'vLB', lb)
        r.it.setattr(o, 'vUB', ub)
        r.call(o, 'write_all_computation_details', out_path())
        r.no_raise()
        row = check_row(r, out_path(), lb, ub, I_, o, total, use, L, gap)
        if row is None:
            return
        r.ensure('eighteen columns', len(row) == 18)
        column(r, 'column 9: splitting method', row, 9, CODE[split], 0)
        column(r, 'column 10: initial partition', row, 10, CODE[init], 0)
        column(r, 'column 11: projection method', row, 11, CODE[proj], 0)
        column(r, 'sixth last column: iterations', row, len(row) - 6, its, 0)
        column(r, 'fifth last column: size of the partition', row, len(row) - 5, size, 0)
    return f


# ------------------------------------------------------------------ file names
def script(r, name):
    """the statements of a script as a function body (its imports are executed by the loader)"""
    m = r.it.loader.load(r.it, name)
    m.env['__name__'] = '__main__'
    tree = ast.parse(r.it.loader.sources[name])
    body = [s for s in tree.body if not isinstance(s, (ast.Import, ast.ImportFrom))]
    f = ast.parse('def __script__():\n    pass').body[0]
    f.body = body
    r.it.call(FuncV(f, m), [], {})


def same_text(r, name, got, want):
    """got reads as want: a list of texts, atoms and integer terms"""
    if not isinstance(got, (str, StrV)):
        r.ensure(name, False)
        return
    a = pieces(r, str_parts(got))
    b = pieces(r, want)
    if a is None or [x if not is_numlike(x) else 0 for x in a] != [x if not is_numlike(x) else 0 for x in b]:
        r.ensure(name, False)
        return
    r.ensure(name, b_and(*[cmp_('==', x, y) for x, y in zip(a, b) if is_numlike(x)]))


def pieces(r, parts):
    out = []
    for p in parts:
        if isinstance(p, tuple) and p[0] != 'atom':
            p = number_part(r, p)
            if p is None:
                return None
            if is_realv(p) or is_boolv(p):
                return None
        elif isinstance(p, int):
            p = str(p)
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif not (isinstance(p, str) and p == ''):
            out.append(p)
    return out


def percent(r):
    """an epsilon given in whole percent: the floating-point number next to pc/100"""
    pc = r.int('percent', 0, 99)
    e = r.real('epsilon', 0, 1)
    d = arith('-', arith('*', 100, e), pc)
    tiny = Fraction(1, 10 ** 13)
    r.assume(b_and(cmp_('<=', d, tiny), cmp_('<=', neg(tiny), d)))
    return pc, e


def expected(i, s, j, pc, cont, meth):
    return [i, '-', s, '-', j, '-', pc, '-', cont, '-', meth, '.csv']


def runner(cont, meth, interrupted=False):
    """main.py writes one row, after the run, to the file the exporter looks for"""
    def f(r):
        pc, e = percent(r)
        s, j = r.int('scenarios', 1), r.int('id', 1)
        log = []
        K = r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance')
        name = StrV([atom('i'), '-', ('fmt', 'str', s), '-', ('fmt', 'str', j)])
        loc, out, etext = StrV([atom('file')]), StrV([atom('dir')]), StrV([atom('epsilon')])

        def same(v, w):
            return isinstance(v, (str, StrV)) and str_parts(v) == str_parts(w)

        def number(it, v):
            if same(v, etext):
                return e
            it.raise_exc('ValueError', 'float')
        r.it.parse_float = number
        argv = r.it.new_list(Lit(['main.py', loc, str(cont), etext, str(meth), out]))
        r.it.ext['sys'] = lambda it, nm: argv if nm == 'argv' else Opaque('sys.' + nm)
        r.it.ext['os'] = lambda it, nm: Builtin('os.' + nm, lambda it, a, k: log.append(('os.' + nm, a)))
        sig = {'SIGALRM': 14, 'SIGINT': 2}
        r.it.ext['signal'] = lambda it, nm: sig.get(nm) or Builtin('signal.' + nm, lambda it, a, k: log.append(('signal.' + nm, a)))
        r.it.path_model = lambda it, nm, a: r.bool(nm) if nm in ('exists', 'isdir') else r.it.lib.os_path_join(a)

        def instance(it, a, k):
            f = dict(zip(['file_location', 'continuous_var', 'epsilon'], a))
            f.update(k)
            ok = same(f['file_location'], loc)
            r.ensure('the instance file asked for', ok)
            r.ensure('the variable type asked for', b_and(r.it.truth(f['continuous_var'])) if cont else b_not(r.it.truth(f['continuous_var'])))
            r.ensure('the epsilon asked for', cmp_('==', f['epsilon'], e))
            return r.obj(K)
        r.it.summaries['ChanceKnapInstance'] = instance
        r.it.summaries['ChanceInstance.get_file_name'] = lambda it, a, k: name

        def solve(it, a, k):
            log.append(('solve', k))
            if interrupted:
                it.raise_exc('KeyboardInterrupt', '')

        def method(cname):
            def make(it, a, k):
                C = r.cls('src.solver.' + cname, cname)
                log.append((cname, k))
                return r.obj(C, chance_instance_part=None, solve=Builtin('solve', solve), init_args=None,
                             write_all_computation_details=Builtin('write', lambda it, a, k: log.append(('row', a[0], list(it.ctx.guard)))),
                             write_iteration_details=Builtin('write', lambda it, a, k: log.append(('iterations', a[0], list(it.ctx.guard)))))
            return make
        for c in ('MilpSolver', 'AdaptivePartitioner'):
            r.it.summaries[c] = method(c)
        r.it.summaries['BigMFinder'] = lambda it, a, k: None
        r.it.summaries['TimeManager.set_final_time'] = lambda it, a, k: log.append(('final', list(it.ctx.guard)))
        r.canary()
        script(r, 'main')
        r.no_raise()
        names = [x[0] for x in log]
        r.ensure('one method is created', len([x for x in names if x in ('MilpSolver', 'AdaptivePartitioner')]) == 1)
        r.ensure('of the right kind', ('MilpSolver' if meth < 3 else 'AdaptivePartitioner') in names)
        r.ensure('it is run once', names.count('solve') == 1)
        r.ensure('one row is written', names.count('row') == 1)
        r.ensure('the clock is stopped once, after the run and before the row is written',
                 names.count('final') == 1 and 'solve' in names and 'row' in names and names.index('solve') < names.index('final') < names.index('row'))
        for x in log:
            if x[0] == 'row':
                r.ensure('the row is written whatever happened', b_and(*x[2]))
                want = expected(atom('i'), s, j, pc, cont, meth)
                same_text(r, 'the file name the exporter looks for', x[1], [atom('dir')] + want)
        for x in log:
            if x[0] == 'iterations':
                w = [q[1] for q in log if q[0] == 'row']
                r.ensure('iteration details go to another file', not w or not same(w[0], x[1]))
    return f


def reader(r):
    """read_single_experiment reads exactly that file: first entry as it is, the others as numbers"""
    F = r.func('src.export.format_results', 'read_single_experiment')
    pc, e = percent(r)
    s, j = r.int('scenarios', 1), r.int('id', 1)
    cont, meth = r.int('continuous', 0, 1), r.int('method', 1, 4)
    n = r.int('columns', 1)
    val = r.fn('value', [I], RS)
    opened = []
    r.it.on_open = lambda it, path, mode: opened.append((path, mode, list(it.ctx.guard)))
    cell = lambda k: StrV([('cell', k)])
    row = Frozen(Fn(n, cell), None, 'list')
    r.it.csv_rows = lambda it, f, k: OneRow(row)
    r.it.parse_float = lambda it, v: val(v.parts[0][1])
    r.canary()
    res = r.it.call(F, [StrV([atom('dir')]), StrV([atom('i')]), s, j, e, cont, meth], {})
    r.no_raise()
    r.ensure('one file is opened, for reading', len(opened) == 1 and opened[0][1] in ('r', 'rt'))
    for p, m, g in opened:
        r.ensure('always', b_and(*g))
        same_text(r, 'the file name the runner writes', p, [atom('dir')] + expected(atom('i'), s, j, pc, cont, meth))
    q = r.seq(res)
    r.ensure('one entry per column', cmp_('==', q.n, n))
    first = q.at(0)
    r.ensure('the first entry is the name', cell_is(r, first, 0))
    k = r.int('k', 1)
    r.assume(cmp_('<', k, n))
    r.ensure('the other entries are the numbers of the row', number_is(q.at(k), val(k)))


def number_is(v, w):
    if isinstance(v, IteV):
        return b_ite(v.c, number_is(v.a, w), number_is(v.b, w))
    return cmp_('==', v, w) if is_numlike(v) else False


def cell_is(r, v, k):
    if isinstance(v, IteV):
        return b_ite(v.c, cell_is(r, v.a, k), cell_is(r, v.b, k))
    if not isinstance(v, StrV):
        return False
    p = v.parts[0]
    return len(v.parts) == 1 and p[0] == 'cell' and (p[1] == k if not is_sym(p[1]) else r.ctx.prove_quick(cmp_('==', p[1], k), ms=1000))


class OneRow:
    """csv reader over a file of one row"""

    def __init__(self, row):
        self.row = row

    def next(self, it):
        return self.row

    def get_seq(self, it):
        return Lit([self.row])


def absent(r):
    """no such file: an empty row"""
    F = r.func('src.export.format_results', 'read_single_experiment')
    pc, e = percent(r)
    r.it.on_open = lambda it, path, mode: it.raise_exc('FileNotFoundError', '')
    r.canary()
    res = r.it.call(F, [StrV([atom('dir')]), StrV([atom('i')]), r.int('s', 1), r.int('j', 1), e, 1, 1], {})
    r.no_raise()
    r.ensure('an empty row', cmp_('==', r.seq(res).n, 0))


# ------------------------------------------------------------------ summary
def summary(meth):
    def f(r):
        """mean time if all runs are solved to the required gap, otherwise mean gap and number of solved runs"""
        F = r.func('src.export.format_results', 'format_method')
        N, k, W = r.int('rows', 1), r.int('ids', 1), r.int('columns', 12)
        cell = r.fn('cell', [I, I], RS)
        pick = r.fn('id', [I], I)
        rows = r.it.new_list(Fn(N, lambda j: Frozen(Fn(W, lambda c: cell(j, c)), None, 'list')))
        q = r.ctx.bound('q')
        r.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < k), z3.And(1 <= pick(q), pick(q) <= N)), patterns=[pick(q)]))
        ids = r.it.new_list(Fn(k, lambda a: pick(a)))
        req = r.real('required', 0)
        r.canary()
        t, nb, gap, tab = r.it.call(F, [rows, meth, ids, req, r.it.new_list(Lit([1, 2])), r.it.new_list(Lit([3, 4]))], {})
        r.no_raise()
        at = lambda a, c: cell(arith('-', pick(a), 1), arith('-', W, c))
        solved = lambda a: cmp_('<=', at(a, 1), arith('+', req, Fraction(1, 10 ** 7)))
        mean = lambda c: arith('/', r.sum(k, lambda a: at(a, c)), k)
        al = r.forall(k, solved)
        r.ensure('number of solved runs', cmp_('==', nb, r.count(k, solved)))
        tx, gx = [v if isinstance(v, XR) else XR(False, False, toreal(v)) for v in (t, gap)]
        r.ensure('mean time when all runs are solved', b_implies(al, b_and(b_not(tx.p), b_not(tx.n), cmp_('==', tx.v, mean(4)))))
        r.ensure('then no gap is reported', b_implies(al, gx.p))
        r.ensure('mean gap when a run is not solved', b_implies(b_not(al), b_and(b_not(gx.p), b_not(gx.n), cmp_('==', gx.v, mean(1)))))
        r.ensure('then no time is reported', b_implies(b_not(al), tx.p))
        q = r.seq(tab)
        r.ensure('entries of the table', cmp_('==', q.n, 1 if meth < 3 else 2))
        r.ensure('the entry shows the mean time or the mean gap with the number of solved runs', entry(r, q.at(0), al, mean, nb))
        if meth > 2:
            r.ensure('mean number of iterations', cmp_('==', q.at(1), mean(6)))
    return f


def entry(r, v, al, mean, nb):
    if isinstance(v, IteV):
        return b_ite(v.c, entry(r, v.a, al, mean, nb), entry(r, v.b, al, mean, nb))
    if not isinstance(v, StrV):
        return False
    p = v.parts
    two = lambda x: isinstance(x, tuple) and (x[0] == 'fmt' and x[1] == '.2f' or x[0] == 'pct' and x[1] == '%.2f')
    whole = lambda x: isinstance(x, tuple) and (x[0] == 'fmt' and x[1] in ('str', 'd', '.0f') or x[0] == 'pct' and x[1] == '%d')
    if len(p) == 2 and two(p[0]) and p[1] == 's':
        return b_and(al, cmp_('==', p[0][-1], mean(4)))
    if len(p) == 4 and two(p[0]) and p[1] == '\\%(' and whole(p[2]) and p[3] == ')':
        return b_and(b_not(al), cmp_('==', p[0][-1], mean(1)), cmp_('==', p[2][-1], nb))
    return False


CONTRACTS = [('MilpSolver row, big-M %s' % (m if u else 'off'), milp_row(u, m)) for u, m in
             [(True, 'naive'), (True, 'belotti'), (True, 'song'), (False, 'naive')]]
CONTRACTS += [('AdaptivePartitioner row, %s/%s/%s' % c, ap_row(*c, c[0] == 'cost')) for c in
              itertools.product(('random', 'cost'), ('random', 'cost'), ('counter', 'rescaled_max_violation'))]
CONTRACTS += [('AdaptivePartitioner row, stopped before the first iteration', ap_row('cost', 'cost', 'counter', True, True))]
CONTRACTS += [('main.py, method %d, %s variables%s' % (m, 'continuous' if c else 'binary', ', stopped' if i else ''), runner(c, m, i))
              for m in (1, 2, 3, 4) for c in (0, 1) for i in ((False, True) if m > 2 else (False,))]
CONTRACTS += [('read_single_experiment', reader), ('read_single_experiment, no file', absent)]
CONTRACTS += [('format_method, method %d' % m, summary(m)) for m in (1, 2, 3, 4)]
