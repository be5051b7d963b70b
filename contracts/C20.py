"""C20: the clock arithmetic, the time limits handed to the solver, no phase without time"""
from dv.spec import *
from dv import hoare, grb


def now(r):
    return r.it.lib.clock(r.it)


def fmax0(v):
    return ite(cmp_('<', v, 0), Fraction(0), v)


def manager(r):
    TM = r.cls('src.TimeManager', 'TimeManager')
    L = r.real('limit', 0)
    t0 = now(r)
    r.call(TM, 'set_limit_and_start_time', L)
    t1 = now(r)
    start = r.call(TM, 'get_start_time')
    r.canary()
    r.ensure('starts when set', b_and(cmp_('<=', t0, start), cmp_('<=', start, t1)))
    for q in ('first', 'second'):
        a = now(r)
        v = r.call(TM, 'get_remaining_time')
        b = now(r)
        # the reading lies between what was left just before and just after the call
        r.ensure('%s reading: not more than what was left before the call' % q, cmp_('<=', v, fmax0(arith('-', L, arith('-', a, start)))))
        r.ensure('%s reading: not less than what is left after the call' % q, cmp_('>=', v, fmax0(arith('-', L, arith('-', b, start)))))
        r.ensure('%s reading: never negative' % q, cmp_('>=', v, 0))
    a = now(r)
    r.call(TM, 'set_final_time')
    b = now(r)
    now(r)
    v = r.call(TM, 'get_total_time')
    r.ensure('total time is finish minus start', b_and(cmp_('<=', arith('-', a, start), v), cmp_('<=', v, arith('-', b, start))))
    r.ensure('start unchanged', cmp_('==', r.call(TM, 'get_start_time'), start))
    a = now(r)
    v = r.call(TM, 'get_remaining_time')
    b = now(r)
    r.ensure('remaining time after finishing', b_and(cmp_('<=', v, fmax0(arith('-', L, arith('-', a, start)))),
                                                     cmp_('>=', v, fmax0(arith('-', L, arith('-', b, start))))))
    r.no_raise()


def created(r):
    """creating a method starts its clock with its own limit"""
    TM = r.cls('src.TimeManager', 'TimeManager')
    S = r.cls('src.solver.Solver', 'Solver')
    r.call(TM, 'set_limit_and_start_time', r.real('old_limit', 0))
    r.call(TM, 'set_final_time')
    L = r.real('limit', 0)
    r.it.summaries['Evaluator'] = lambda it, a, k: r.obj(r.cls('src.Evaluator', 'Evaluator'))
    r.canary()
    a = now(r)
    s = r.it.call(S, [r.obj(r.cls('src.instance.ChanceKnapInstance', 'ChanceKnapInstance')), L, r.real('gap', 0)], {})
    b = now(r)
    left = r.call(s, '_available_time')
    c = now(r)
    r.no_raise()
    r.ensure('remaining time of the method (upper)', cmp_('<=', left, fmax0(L)))
    r.ensure('remaining time of the method (at least the limit less the time since creation began)',
             cmp_('>=', left, fmax0(arith('-', L, arith('-', c, a)))))
    start = r.call(TM, 'get_start_time')
    r.ensure('the clock starts with the method', b_and(cmp_('<=', a, start), cmp_('<=', start, b)))


def handed(r):
    """solve_cclp_model: TimeLimit is the time given less the time spent building the model"""
    grb.install(r.it)
    S = r.cls('src.solver.Solver', 'Solver')
    CM = r.cls('src.optim.CCLPModel', 'CCLPModel')
    seen = {}
    model = grb.new_model(r.it)

    def build(it, a, k):
        seen['b0'] = now(r)
        seen['b1'] = now(r)

    def solve(it, a, k):
        seen['limit'] = it.getattr(it.getattr(model, 'Params'), 'TimeLimit')
        seen['s0'] = now(r)
        now(r)
    m = r.obj(CM, grb_model=model, build=Builtin('build', build), solve=Builtin('solve', solve),
              fix_z_to_zero=Builtin('fix', lambda it, a, k: None), get_var_x_val=Builtin('x', lambda it, a, k: r.vec('x', 3)),
              get_var_z_val=Builtin('z', lambda it, a, k: r.vec('z', 3)), get_obj_val=Builtin('v', lambda it, a, k: r.real('v')),
              get_obj_bnd=Builtin('b', lambda it, a, k: r.real('b')))
    r.it.summaries['CCLPModel'] = lambda it, a, k: m
    T0 = r.real('time_limit')
    prune = r.lst('prune')
    o = r.obj(S)
    r.canary()
    e = now(r)
    r.call(o, 'solve_cclp_model', None, None, time_limit=T0, prune_indices=prune, elapsed_time=r.real('elapsed'), gap=r.real('gap'),
           use_one_thread=r.bool('one'), use_big_M=r.bool('bigm'), use_lazy=r.bool('lazy'))
    r.no_raise()
    if 'limit' not in seen or 'b0' not in seen:
        r.ensure('a model is built and solved with a time limit', False)
        return
    r.ensure('the model is built before it is solved', cmp_('<=', seen['b1'], seen['s0']))
    r.ensure('limit at most the time given less the building time', cmp_('<=', seen['limit'], arith('-', T0, arith('-', seen['b1'], seen['b0']))))
    r.ensure('limit at least the time given less the time since the call', cmp_('>=', seen['limit'], arith('-', T0, arith('-', seen['s0'], e))))


def start_clock(r):
    TM = r.cls('src.TimeManager', 'TimeManager')
    L = r.real('limit', 0)
    r.call(TM, 'set_limit_and_start_time', L)
    return L, r.call(TM, 'get_start_time')


def given(r, seen, L, start):
    """the time given is the remaining time at some moment between a and b"""
    if 'limit' not in seen:
        r.ensure('a time limit is handed over', False)
        return
    r.ensure('not more than what was left when the step began', cmp_('<=', seen['limit'], fmax0(arith('-', L, arith('-', seen['a'], start)))))
    r.ensure('not less than what is left at the hand-over', cmp_('>=', seen['limit'], fmax0(arith('-', L, arith('-', seen['b'], start)))))


def milp(r):
    """MilpSolver.solve hands over what is left after the big-M computation"""
    seen = {}
    M = r.cls('src.solver.MilpSolver', 'MilpSolver')
    L, start = start_clock(r)
    use = r.bool('use_big_m')

    def big_m(it, a, k):
        now(r)
        seen['a'] = now(r)

    def cclp(it, a, k):
        f = dict(zip(['inst', 'finder', 'z_start', 'prune', 'time_limit', 'elapsed_time'], a))
        f.update(k)
        seen['limit'] = f['time_limit']
        seen['elapsed'] = f.get('elapsed_time')
        seen['b'] = now(r)
        return (r.vec('x', 3), r.vec('z', 3), r.real('v'), r.real('b'))
    r.it.summaries['MilpSolver._compute_big_m'] = big_m
    r.it.summaries['Solver.solve_cclp_model'] = cclp
    o = r.obj(M, chance_instance=None, big_m_finder=None, time_limit=L, gap=r.real('gap', 0))
    r.canary()
    seen['a'] = now(r)
    r.call(o, 'solve', True, 'belotti')
    r.no_raise()
    given(r, seen, L, start)


def upper(r):
    """_upper_bound hands the remaining time to the partitioned problem, and partition_bound passes it on"""
    seen = {}
    AP = r.cls('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')
    L, start = start_clock(r)

    def cclp(it, a, k):
        f = dict(zip(['inst', 'finder', 'z_start', 'prune', 'time_limit', 'elapsed_time'], a))
        f.update(k)
        seen['limit'] = f['time_limit']
        seen['b'] = now(r)
        given(r, seen, L, start)
        raise DeadPath()
    part = r.obj(r.cls('src.instance.PartitionChanceKnapInstance', 'PartitionChanceKnapInstance'), continuous_var=r.bool('cont'))
    U = r.it.call(r.cls('src.UpperBounder', 'UpperBounder'), [part, 'cost', 'cost'], {})
    r.it.summaries['Solver.solve_cclp_model'] = cclp
    r.it.summaries['UpperBounder.first_iteration_bound'] = lambda it, a, k: (_ for _ in ()).throw(DeadPath())
    mg = r.obj(r.cls('src.Merger', 'Merger'), deleted_subsets=r.lst('deleted'))
    n = r.int('nb_subsets', 1)
    o = r.obj(AP, upperbounder=U, merger=mg, nb_subsets=n, minimum_partition_size=r.int('mu'), zUB=r.vec('zUB', n),
              subset_costs=r.lst('cost', n, sort=RS), subset_sols=r.lst('sol', n, sort=RS), vLB=r.real('vLB'),
              vUB=r.real('vUB'), xUB=r.vec('x', 3), chance_instance_part=part)
    r.it.summaries['Warmstarter.get_z_start'] = lambda it, a, k: None
    r.canary()
    seen['a'] = now(r)
    r.call_until(o, '_upper_bound', None, r.bool('bigm'))
    r.ensure('a time limit is handed over', 'limit' in seen)


class Phases(hoare.Spec):
    def __init__(self, r):
        self.r, self.left, self.fresh = r, None, None

    def inv(self, it, k):
        h, out = it.st.heap, []
        if self.left is None:
            e = h.get('left')
            self.left = [n for n, v in it.st.env.items() if is_sym(v) and e is not None and is_sym(e) and v.eq(e)]
            self.fresh = h.get('fresh') == 1
        for n in self.left:
            out.append(('%s is the last remaining time' % n, cmp_('==', it.st.env[n], h['left'])))
        if self.fresh:
            out.append(('the remaining time was looked at after the last phase', cmp_('==', h['fresh'], 1)))
        return out


def phases(r):
    """no phase of an iteration starts unless the last look at the remaining time, after the previous phase, found some"""
    AP = r.cls('src.solver.AdaptivePartitioner', 'AdaptivePartitioner')
    start_clock(r)
    h = r.it.st.heap
    h['left'], h['fresh'], h['group'] = r.real('left0', 0), 0, -1

    def remaining(it, a, k):
        v = r.real('left', 0)
        it.st.heap['left'] = v
        it.st.heap['fresh'] = 1
        return v

    def phase(name, group, result):
        def f(it, a, k):
            h = it.st.heap
            ok = b_and(cmp_('==', h['fresh'], 1), cmp_('>', h['left'], 0))
            if name in ('_merge', '_upper_bound'):
                # second half of a step
                ok = b_or(ok, cmp_('==', h['group'], group))
            r.ctx.pos = 'precondition of ' + name
            r.ctx.oblige("%s starts only with time left" % name, ok, assume_after=False)
            h['fresh'], h['group'] = 0, group
            return result()
        r.it.summaries['AdaptivePartitioner.' + name] = f
    phase('_big_M', 1, lambda: None)
    phase('_upper_bound', 1, lambda: (r.vec('xUB', 3), r.bool('is_feasible')))
    phase('_lower_bound', 2, lambda: r.real('real_gap'))
    phase('_split', 3, lambda: r.lst('new_costs', sort=RS))
    phase('_merge', 3, lambda: None)
    r.it.summaries['TimeManager.get_remaining_time'] = remaining
    r.it.summaries['AdaptivePartitioner._improve_vlb_with_candidate_sols'] = lambda it, a, k: None
    sp = Phases(r)
    r.it.loop_spec = lambda it, s, seq: sp if seq is None else None
    cost = lambda it, a, k: (r.lst('costs', sort=RS), r.lst('sols', sort=RS))
    o = r.obj(AP, evaluator=r.obj(r.cls('src.Evaluator', 'Evaluator'), partition_cost=Builtin('partition_cost', cost)),
              partition=r.lst('partition'), informer=r.it.call(r.cls('src.Informer', 'Informer'), [], {}),
              vUB=r.real('vUB'), vLB=r.real('vLB'), gap=r.real('gap', 0), xUB=r.vec('x', 3), xLB=r.vec('x', 3))
    r.canary()
    r.call(o, 'solve', None, r.bool('bigm'), 'belotti', r.bool('merger'), r.bool('lazy'))
    r.no_raise()


CONTRACTS = [('TimeManager', manager), ('Solver.__init__', created), ('solve_cclp_model', handed), ('MilpSolver.solve', milp),
             ('_upper_bound', upper), ('AdaptivePartitioner.solve', phases)]
