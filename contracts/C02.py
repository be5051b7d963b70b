"""C02: is_feasible / check_feasibility against the definition of a violated scenario"""
from dv.spec import *

ASSUMES = ["epsilon*S is an integer or at least 1e-6 below the next integer (true for decimals of up to six digits)"]


def spec_max(r, I_, s, x):
    """largest rescaled violation of scenario s (0 if none)"""
    def v(i):
        raw = arith('-', I_.lhs(s, i, x), I_.b(s, i))
        nrm = I_.norm(s, i)
        return ite(cmp_('!=', nrm, 0), arith('/', raw, nrm), raw)
    return v


def setup(r, **fields):
    I_ = Inst(r, fields=fields)
    x = r.fn('x', [I], RS)
    X = r.it.new_nd(Nd((I_.n,), lambda j: x(j), 'f'))
    r.canary()
    return I_, x, X


def feasible(r):
    I_, x, X = setup(r)
    ok, nb, tol, flags, inf = r.call(I_.ref, 'is_feasible', X)
    r.no_raise()
    cnt = r.count(I_.S, lambda s: I_.violated(s, x))
    I_.gran(cnt)
    r.lemma('counted scenarios are the violated ones', cmp_('==', nb, cnt))
    r.ensure('verdict: violated scenarios at most epsilon*S', T(ok) == (R(cnt) <= I_.eps * R(I_.S)))
    r.ensure('reported number of violated scenarios', cmp_('==', nb, cnt))
    r.ensure('reported tolerance', cmp_('==', tol, I_.E))
    fl = r.seq(flags)
    r.ensure('one flag per scenario', cmp_('==', fl.n, I_.S))
    r.lemma('flag of every scenario', r.forall(I_.S, lambda s: T(fl.at(s)) == T(I_.violated(s, x))))


def summary(r):
    stale = r.fn('stale', [I], RS)
    I_, x, X = setup(r)
    # results of an earlier check of another point
    h = r.it.st.heap[I_.ref.id]
    h.fields['is_scenario_infeasible'] = r.lst('old_flags', sort=B)
    h.fields['infeasible_scenarios'] = r.lst('old_list')
    h.fields['max_infeasibility_scenarios'] = r.vec('old_max', I_.S)
    ok = r.call(I_.ref, 'check_feasibility', X)
    r.no_raise()
    S = I_.S
    cnt = r.count(S, lambda s: I_.violated(s, x))
    I_.gran(cnt)
    r.ensure('verdict: violated scenarios at most epsilon*S', T(ok) == (R(cnt) <= I_.eps * R(S)))
    fl = r.seq(r.fld(I_.ref, 'is_scenario_infeasible'))
    r.ensure('one flag per scenario', cmp_('==', fl.n, S))
    r.lemma('flag of every scenario', r.forall(S, lambda s: T(fl.at(s)) == T(I_.violated(s, x))))
    L = r.seq(r.fld(I_.ref, 'infeasible_scenarios'))
    r.ensure('list holds violated scenarios only', r.forall(L.n, lambda p: b_and(
        cmp_('>=', L.at(p), 0), cmp_('<', L.at(p), S), I_.violated(L.at(p), x))))
    r.ensure('list is increasing', r.forall(L.n, lambda p: b_implies(cmp_('>', p, 0), cmp_('<', L.at(arith('-', p, 1)), L.at(p)))))
    r.ensure('list holds every violated scenario', cmp_('==', L.n, cnt))
    mask = r.seq(r.call(I_.ref, 'get_feasible_scenarios'))
    r.ensure('one mask entry per scenario', cmp_('==', mask.n, S))
    r.ensure('mask: satisfied scenarios', r.forall(S, lambda s: T(mask.at(s)) == T(b_not(I_.violated(s, x)))))
    mx = r.seq(r.call(I_.ref, 'get_sum_infeasibility'))
    r.ensure('one maximum per scenario', cmp_('==', mx.n, S))

    def is_max(s):
        def v(i):
            raw = arith('-', I_.lhs(s, i, x), I_.b(s, i))
            nrm = I_.norm(s, i)
            return ite(cmp_('!=', nrm, 0), arith('/', raw, nrm), raw)
        return b_and(
            r.forall(I_.m, lambda i: b_implies(I_.viol(s, i, x), cmp_('>=', mx.at(s), v(i)))),
            ite(I_.violated(s, x),
                r.exists(I_.m, lambda i: b_and(I_.viol(s, i, x), cmp_('==', mx.at(s), v(i)))),
                cmp_('==', mx.at(s), 0)))
    r.ensure('largest rescaled violation of every scenario', r.forall(S, is_max))
    r.no_raise()


CONTRACTS = [('is_feasible', feasible), ('check_feasibility', summary)]
