"""C17: get_z_start against its definition; the deletions used inside runs of the adaptive method"""
import itertools
import common
import adaptive
from common import repo

RULE = ("all 0/1 indicator vectors and all deletion sets for up to 6 subsets (lists and arrays, deletions in any order), "
        "random ones up to 40; runs of the adaptive method with and without merging, start values compared with the "
        "partitions before and after the last merge")


def want(z, dele):
    dele = set(int(d) for d in dele)
    return {i - sum(1 for d in dele if d < i): 1 for i in range(len(z)) if z[i] == 1 and i not in dele}


def one(H, z, dele, W, arr):
    import numpy as np
    inp = dict(z=z, deleted=dele, array=arr)
    a = np.array(z, dtype=float) if arr else list(z)
    d = [np.int64(v) for v in dele] if arr and len(dele) % 2 else list(dele)
    out = H.call('get_z_start', inp, W.get_z_start, a, d)
    H.case((tuple(z), tuple(dele)), inp, nontrivial=bool(dele) and any(z))
    got = {int(k): float(v) for k, v in out.items()}
    H.check(got == want(z, dele), 'start values', inp, got, want(z, dele))
    H.check(list(a) == list(z) and [int(v) for v in d] == list(dele), 'arguments left alone', inp)


def small(H):
    W = repo('src.Warmstarter').Warmstarter()
    for N in range(0, H.scale(6, 7)):
        for z in itertools.product([0, 1], repeat=N):
            for r in range(N + 1):
                for dele in itertools.combinations(range(N), r):
                    dele = list(dele)
                    if r > 1 and H.rng.random() < 0.5:
                        H.rng.shuffle(dele)
                    one(H, z, dele, W, H.rng.random() < 0.5)


def large(H):
    rng = H.rng
    W = repo('src.Warmstarter').Warmstarter()
    for _ in range(H.scale(500, 5000)):
        N = rng.randint(5, 40)
        z = tuple(int(rng.random() < 0.6) for _ in range(N))
        # deleted subsets can also be subsets added after z was obtained
        dele = rng.sample(range(N + rng.randint(0, 3)), rng.randint(0, N // 2))
        one(H, z, dele, W, rng.random() < 0.5)


def runs(H):
    rng = H.rng
    cov = COV
    for it in range(H.scale(250, 6000)):
        if not H.more(0.8):
            break
        ci, o, so, seed = adaptive.hard(rng) if it % 4 else adaptive.pick(rng, big=True)
        so = dict(so, use_merger=it % 5 != 0)
        st = dict(z=None, deleted=[])

        def merged(rec, args, out, before):
            old, new = before, [frozenset(s) for s in out[0]]
            gone = [i for i, s in enumerate(old) if s not in new]
            if len(gone) == 0:
                return
            st['deleted'] = [i for i in gone if i != min(gone)]

        def before_merge(rec, args):
            return [frozenset(s) for s in args['partition']]

        def iteration(rec, args, out, tok):
            st['z'] = None if rec.m.zUB is None else [round(float(v)) for v in rec.m.zUB]

        def split(rec, args):
            st['deleted'] = []

        def cclp(rec, args):
            zs = args.get('z_start')
            inp = dict(rec.inp(), previous_z=st['z'], deleted=st['deleted'])
            w = want(st['z'], st['deleted'])
            H.case((str(st['z']), str(st['deleted']), seed), dict(previous_z=st['z'], deleted=st['deleted']))
            got = {int(k): float(v) for k, v in (zs or {}).items()}
            cov[bool(st['deleted']), bool(w)] = cov.get((bool(st['deleted']), bool(w)), 0) + 1
            H.check(got == w, 'start values used in a run', inp, got, w)
        R = adaptive.Recorder(ci, o, so, seed, hooks={
            'merge_all:before': before_merge, 'merge_all': merged,
            'merge_feasible:before': before_merge, 'merge_feasible': merged,
            'iteration': iteration, 'split:before': split, 'cclp:before': cclp})
        try:
            H.call('run', R.inp(), lambda: (R.build(), R.solve()))
        except Exception as e:
            if common.is_gurobi_limit(e):
                H.skip('instance above the size limit of the solver licence')
                continue
            raise


def bound(H):
    import numpy as np
    rng = H.rng
    UB = repo('src.UpperBounder').UpperBounder
    for _ in range(H.scale(300, 5000)):
        N = rng.randint(1, 12)
        z = [int(rng.random() < 0.6) for _ in range(N)]
        dele = rng.sample(range(N + 2), rng.randint(0, N))
        got = {}

        class A:
            did_merge, MERGE_TOL, vUB, xUB = True, 1.0, 100., None

            def solve_cclp_model(self, *a, **k):
                got['z'] = {int(i): float(v) for i, v in k['z_start'].items()}
                return np.zeros(2), np.array(z, float), 5., 5.

        class P:
            continuous_var = bool(rng.randint(0, 1))
        inp = dict(z=z, deleted=dele)
        H.call('partition_bound', inp, UB(P(), 'random', 'random').partition_bound, A(), [1.] * (N + 2 - len(dele)), 0., np.array(z, float), list(dele), None, 10., False, False)
        H.case((tuple(z), tuple(dele)), inp, nontrivial=bool(dele))
        H.check(got.get('z') == want(z, dele), 'start values handed to the partitioned problem', inp, got.get('z'), want(z, dele))


COV = {}
PARTS = [small, large, bound, runs]

