"""C01: constructor of ChanceKnapInstance on an arbitrary well-formed file"""
from dv.spec import *

ASSUMES = ["csv.reader with QUOTE_NONNUMERIC yields every row of the file as floats, in order (external library contract)",
           "well-formed file: 3 + S*m - 0 rows with the lengths stated in the property, header cells are the integers n, m, S"]


def load(r, cont=None):
    it = r.it
    n, m, S, h = r.int('n', 1), r.int('m', 1), r.int('S', 1), r.int('header_len', 3)
    cell = r.fn('cell', [I, I], RS)
    N = arith('+', arith('*', S, m), 3)
    r.assume(cmp_('>=', arith('*', S, m), 1))
    for k, v in enumerate((n, m, S)):
        r.assume(cmp_('==', cell(0, k), toreal(v)))
    rowlen = lambda q: ite(cmp_('==', q, 0), h, ite(cmp_('==', q, arith('-', N, 1)), m, n))
    path = StrV([('fmt', 'path', 0)])
    opened = []
    it.on_open = lambda it_, p, mode: opened.append(p)

    def rows(it_, f, k):
        if k.get('quoting') != 2 or k.get('delimiter', ',') != ',' or f.path is not path:
            raise Unsupported("csv.reader dialect")
        return it.new_list(Fn(N, lambda q: Frozen(Fn(rowlen(q), lambda j, q=q: cell(q, j)))))
    it.csv_rows = rows
    eps = r.real('epsilon', 0, 1)
    c = r.bool('continuous_var') if cont is None else cont
    r.canary()
    o = r.it.call(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance'), [path, c, eps], {})
    r.no_raise()
    return o, n, m, S, cell, N, eps, c


def rounded(v, x):
    """v is x rounded to one decimal"""
    d = arith('-', v, x)
    h = Fraction(1, 20)
    return b_and(cmp_('<=', d, h), cmp_('<=', neg(d), h), z3.IsInt(R(arith('*', v, 10))))


def loaded(r):
    o, n, m, S, cell, N, eps, c = load(r)
    g = lambda nm, *a: r.call(o, nm, *a)
    r.ensure('number of variables', cmp_('==', g('get_nb_vars'), n))
    r.ensure('number of scenarios', cmp_('==', g('get_nb_scenarios'), S))
    s = r.int('s', 0)
    r.assume(cmp_('<', s, S))
    i = r.int('i', 0)
    r.assume(cmp_('<', i, m))
    j = r.int('j', 0)
    r.assume(cmp_('<', j, n))
    r.lemma('row of scenario s, constraint i is inside the block of matrix rows', b_and(
        cmp_('<', arith('+', arith('*', s, m), i), arith('*', S, m))))
    r.ensure('constraints per scenario', cmp_('==', g('get_nb_constraints', s), m))
    vc = r.nd(g('get_vector_c'))
    r.ensure('length of the objective', cmp_('==', vc.shape[0], n))
    r.ensure('objective: second row rounded', rounded(vc.at(j), cell(1, j)))
    A = r.nd(g('get_matrices_A'))
    if A.ndim != 3:
        r.ensure('three-dimensional matrices', False)
        return
    r.ensure('shape of the matrices', b_and(cmp_('==', A.shape[0], S), cmp_('==', A.shape[1], m), cmp_('==', A.shape[2], n)))
    want = cell(arith('+', arith('+', 2, arith('*', s, m)), i), j)
    r.ensure('matrix entry: file row 2+s*m+i rounded', rounded(A.at(s, i, j), want))
    As = r.nd(g('get_matrix_A', s))
    r.ensure('matrix of one scenario: shape', b_and(len(As.shape) == 2, cmp_('==', As.shape[0], m), cmp_('==', As.shape[1], n)))
    r.ensure('matrix of one scenario: entries', rounded(As.at(i, j), want))
    b = r.nd(g('get_vectors_b'))
    r.ensure('shape of the right-hand sides', b_and(len(b.shape) == 2, cmp_('==', b.shape[0], S), cmp_('==', b.shape[1], m)))
    wb = cell(arith('-', N, 1), i)
    r.ensure('right-hand side: last row rounded', rounded(b.at(s, i), wb))
    bs = r.nd(g('get_vector_b', s))
    r.ensure('right-hand side of one scenario', b_and(cmp_('==', bs.shape[0], m), rounded(bs.at(i), wb)))
    p = r.nd(g('get_proba'))
    r.ensure('probability 1/S', b_and(cmp_('==', p.shape[0], S), cmp_('==', p.at(s), arith('/', 1, S))))
    vt = r.nd(g('get_var_type'))
    r.ensure('variable type', b_and(cmp_('==', vt.shape[0], n), T(vt.at(j)) == T(c)))
    lb, ub = r.nd(g('get_var_lb')), r.nd(g('get_var_ub'))
    r.ensure('one bound per variable', b_and(cmp_('==', lb.shape[0], n), cmp_('==', ub.shape[0], n)))
    l, u = lb.at(j), ub.at(j)
    r.ensure('bounds of continuous variables', b_implies(c, b_and(cmp_('==', l, 0), cmp_('==', u, 1))))
    r.ensure('no restriction of binary variables', b_implies(b_not(c), b_and(cmp_('<=', l, 0), cmp_('>=', u, 1))))
    r.ensure('epsilon', cmp_('==', g('get_epsilon'), eps))
    r.no_raise()


CONTRACTS = [('load', loaded)]
