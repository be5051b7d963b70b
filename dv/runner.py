"""Runs one property: generates and discharges the obligations of its contracts against the current
source, runs the executable contracts against the real code, writes the evidence file, prints the verdict."""
import argparse
import ast
import hashlib
import importlib.util
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DV_REPO', '/repo')
VENV_PY = os.environ.get('DV_VENV_PY', '/opt/venv/bin/python')

BASE_TRUST = [
    "verification-condition generator /verif/dv (Python AST to SMT): not itself verified; cross-checked by running the real code against the executable contracts",
    "SMT solvers z3 and cvc5",
    "floating-point numbers treated as mathematical reals (numpy arrays and Python floats alike); integers are unbounded",
    "Python semantics of the supported subset: no monkey patching, no concurrent mutation, no aliasing of arguments beyond what the contract states",
]


# ------------------------------------------------------------------ source normalisation
class _Strip(ast.NodeTransformer):
    def _body(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Pass) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                continue
            out.append(self.visit(s))
        return out or [ast.Pass()]

    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                nb = self._body(b)
                if f != 'body' and len(nb) == 1 and isinstance(nb[0], ast.Pass):
                    nb = []
                setattr(node, f, nb)
        if isinstance(node, ast.Try):
            for h in node.handlers:
                self.generic_visit(h)
        return node


def norm_hash(path):
    with open(path, encoding='utf-8') as f:
        text = f.read()
    if path.endswith('.py'):
        try:
            t = _Strip().generic_visit(ast.parse(text))
            text = ast.dump(t)
        except SyntaxError:
            pass
    else:
        import re
        text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
        text = re.sub(r'//[^\n]*', ' ', text)
        text = ' '.join(text.split())
    return hashlib.sha256(text.encode()).hexdigest()


def source_files(repo=REPO):
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = [x for x in ds if x not in ('.git', 'build', 'tests', '__pycache__', 'results', '.pytest_cache')]
        for f in fs:
            if f.endswith(('.py', '.h', '.pyx')):
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(out)


def hashes(repo=REPO):
    return {f: norm_hash(os.path.join(repo, f)) for f in source_files(repo)}


# ------------------------------------------------------------------ one contract
def load_contracts(pid):
    p = os.path.join(VERIF, 'contracts', pid + '.py')
    if not os.path.exists(p):
        return None
    spec = importlib.util.spec_from_file_location('contracts_' + pid, p)
    m = importlib.util.module_from_spec(spec)
    sys.path.insert(0, os.path.join(VERIF, 'contracts'))
    spec.loader.exec_module(m)
    return m


def run_contract(pid, idx, conn, scale, workers, deadline=None, known=None):
    """in its own process"""
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    os.setpgid(0, 0)
    out = dict(obligations=[], executed=[], contracts=[], assumptions=[], error=None, unsupported=None,
               gen_s=0.0, vacuous=False, files=[])
    try:
        os.environ['DV_WORKERS'] = str(workers)
        m = load_contracts(pid)
        name, fn = m.CONTRACTS[idx]
        from . import prove, core
        from .spec import Run
        from .interp import DeadPath
        t0 = time.time()
        r = Run(name)
        try:
            fn(r)
        except core.Unsupported as e:
            out['unsupported'] = "%s (at %s)" % (e, r.ctx.pos)
        except DeadPath:
            # no path reaches the end of the contract
            r.no_raise('the end of the contract is reached, no exception escapes')
            r.ctx.guard[:] = []
            r.ctx.pos = 'end of the contract'
            r.ctx.oblige('the end of the contract is reached', False, assume_after=False)
        except RecursionError as e:
            out['unsupported'] = "recursion: %s" % e
        out['gen_s'] = time.time() - t0
        if out['unsupported'] is None:
            prove.discharge(r.ctx, scale=scale, deadline=deadline, known=known)
            pf = r.pre_facts
            if pf is not None and not prove.consistent(r.ctx, pf):
                out['vacuous'] = True
            if not prove.consistent(r.ctx, r.ctx.all_facts(), ms=2000):
                out['vacuous'] = True
        out['obligations'] = [dict(name=o.name, where=o.where, result=o.result, backend=o.backend,
                                   time=round(o.time, 3), info=o.info[:1500]) for o in r.ctx.obligations]
        out['executed'] = sorted(r.it.executed)
        out['contracts'] = sorted(r.it.contracts_used)
        out['assumptions'] = sorted(r.ctx.assumptions)
        out['files'] = sorted(getattr(r.it.loader, 'files', []))
    except MemoryError:
        out['unsupported'] = 'out of memory'
    except Exception:
        out['error'] = traceback.format_exc()[-3000:]
    try:
        conn.send(out)
        conn.close()
    except Exception:
        pass


def prove_all(pid, m, tier, budget, scale=1.0, only=None, stop=lambda: False, known={}):
    n = len(m.CONTRACTS)
    todo = [i for i in range(n) if only is None or i in only]
    cores = int(os.environ.get('DV_CORES', '8'))
    par = max(1, min(len(todo), cores // 2 if len(todo) > 2 else 2))
    res = {}
    running = {}
    t_end = time.time() + budget
    while todo or running:
        if stop():
            t_end = 0
        while todo and len(running) < par:
            i = todo.pop(0)
            a, b = mp.Pipe(False)
            w = max(2, cores // par)
            p = mp.Process(target=run_contract, args=(pid, i, b, scale, w, t_end - 20, known.get(i)))
            p.start()
            b.close()
            running[i] = (p, a, time.time())
        for i, (p, a, t0) in list(running.items()):
            if a.poll(0.02):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(obligations=[], error='worker ended', unsupported=None, executed=[], contracts=[],
                                  assumptions=[], gen_s=0, vacuous=False, files=[])
                p.join(5)
                del running[i]
            elif not p.is_alive():
                res[i] = dict(obligations=[], error=None, unsupported='worker ended (memory or time)', executed=[],
                              contracts=[], assumptions=[], gen_s=0, vacuous=False, files=[])
                del running[i]
            elif time.time() > t_end:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except Exception:
                    p.kill()
                p.join(5)
                res[i] = dict(obligations=[], error=None, unsupported='executable contract already failed' if stop() else 'time budget of the check', executed=[],
                              contracts=[], assumptions=[], gen_s=0, vacuous=False, files=[])
                del running[i]
        if time.time() > t_end and todo:
            for i in todo:
                res[i] = dict(obligations=[], error=None, unsupported='executable contract already failed' if stop() else 'time budget of the check', executed=[],
                              contracts=[], assumptions=[], gen_s=0, vacuous=False, files=[])
            todo = []
        time.sleep(0.03)
    return res


# ------------------------------------------------------------------ executable contracts
def start_replay(pid, tier, seed, scratch, budget):
    p = os.path.join(VERIF, 'replay', pid + '.py')
    if not os.path.exists(p):
        return None
    env = dict(os.environ)
    env.update(VERIF_SEED=str(seed), VERIF_TIER=tier, DV_REPO=REPO, DV_SCRATCH=scratch,
               DV_BUDGET=str(budget), PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    out = open(os.path.join(scratch, 'replay.log'), 'w')
    return subprocess.Popen([VENV_PY, '-B', os.path.join(VERIF, 'replay', 'main.py'), pid,
                             os.path.join(scratch, 'replay.json')],
                            cwd=scratch, env=env, stdout=out, stderr=subprocess.STDOUT,
                            stdin=subprocess.DEVNULL, start_new_session=True)


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % pid):
                out.append(line[len('finding: property=%s ' % pid):])
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-replay', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('--only', default=None, help='contracts to run (comma separated substrings)')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--evidence', default=None)
    a = ap.parse_args(argv)
    pid = a.pid
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quick = tier == 'quick'
    budget = 420 if quick else 3000
    rbudget = 60 if quick else 900
    m = load_contracts(pid)
    scratch = tempfile.mkdtemp(prefix='acc-%s-' % pid)
    rep = None
    try:
        proc = None if a.no_replay else start_replay(pid, tier, seed, scratch, rbudget)
        res = {}
        kf0 = known_findings(pid)
        memo = {}

        def found():
            return proc is not None and proc.poll() is not None and (memo['v'] if 'v' in memo else look())

        def look():
            try:
                vs = json.load(open(os.path.join(scratch, 'replay.json'))).get('violations', [])
            except Exception:
                vs = []
            memo['v'] = any(v.get('key') not in kf0 for v in vs)
            return memo['v']

        def stop():
            # a failing input on the real code settles the verdict
            # (the verifier still gets some time to name the failing obligation)
            if proc is None or proc.poll() is None or time.time() - t0 < 100:
                return False
            return memo['v'] if 'v' in memo else look()
        if m is not None and not a.no_proof:
            only = None
            if a.only:
                only = {i for i, (nm, _) in enumerate(m.CONTRACTS) if any(x in nm for x in a.only.split(','))}
            res = prove_all(pid, m, tier, budget, scale=1.0 if quick else 3.0, only=only, stop=stop)
            # a second try, alone and with more time, for what was only undecided
            again = {i for i, r in res.items() if r['unsupported'] is None and r['error'] is None and
                     any(o['result'] == 'unknown' for o in r['obligations'])}
            left = budget - (time.time() - t0)
            known = {i: {q: o['name'] for q, o in enumerate(res[i]['obligations']) if o['result'] == 'proved'} for i in again}
            if again and left > 60 and not found():
                for i, r in prove_all(pid, m, tier, min(left, 240 if quick else 1500), scale=3.0, only=again, stop=stop, known=known).items():
                    if r['unsupported'] is None and r['error'] is None:
                        for q, o in enumerate(r['obligations']):
                            old = res[i]['obligations'][q] if q < len(res[i]['obligations']) else None
                            if old and old['name'] == o['name'] and (old['result'] == 'proved' or o['result'] == 'skipped'):
                                r['obligations'][q] = old
                        res[i] = r
        if proc is not None:
            hard = rbudget * 3 + 120
            try:
                proc.wait(max(5, hard - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                os.killpg(proc.pid, signal.SIGKILL)
                proc.wait()
            try:
                rep = json.load(open(os.path.join(scratch, 'replay.json')))
            except Exception:
                log = open(os.path.join(scratch, 'replay.log'), errors='replace').read()[-3000:]
                rep = dict(evaluations=0, distinct_nontrivial=0, rule='', samples=[], violation=None,
                           error='executable contracts gave no result: ' + log)
        return report(a, pid, tier, seed, t0, m, res, rep, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(a, pid, tier, seed, t0, m, res, rep, scratch):
    base = {}
    bp = os.path.join(VERIF, 'baseline', 'hashes.json')
    if os.path.exists(bp):
        base = json.load(open(bp))
    cur = hashes()
    changed = sorted(f for f in set(base) | set(cur) if base.get(f) != cur.get(f))
    obs, fails, undis, unsup, errors = [], [], [], [], []
    trusted = list(BASE_TRUST)
    executed, used = set(), set()
    solver_s = 0.0
    backends = {}
    for i, r in sorted(res.items()):
        nm = m.CONTRACTS[i][0]
        if r['error']:
            errors.append("%s: %s" % (nm, r['error']))
        if r['unsupported']:
            unsup.append("%s: %s" % (nm, r['unsupported']))
        if r['vacuous']:
            errors.append("%s: contradictory precondition (vacuous)" % nm)
        executed |= set(r['executed'])
        used |= set(r['contracts'])
        for x in r['assumptions']:
            if x not in trusted:
                trusted.append(x)
        if not r['unsupported'] and not r['error'] and not r['obligations']:
            errors.append("%s: no obligation generated" % nm)
        for o in r['obligations']:
            o = dict(o, contract=nm)
            obs.append(o)
            solver_s += o['time']
            if a.v and o['time'] > 5 and o['result'] == 'proved':
                print("  slow %.1fs %s / %s [%s]" % (o['time'], nm, o['name'], o['info']))
            if o['result'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
            elif not r['unsupported']:
                undis.append(o)
    discharged = sum(1 for o in obs if o['result'] == 'proved')
    for x in getattr(m, 'TRUSTED', []) if m else []:
        trusted.append(x)
    if a.v or errors:
        for e in errors:
            print("engine:", e)
    if a.v:
        for o in obs:
            if o['result'] != 'proved':
                print("  %-9s %s / %s [%s] %.1fs %s" % (o['result'], o['contract'], o['name'], o['where'], o['time'],
                                                        o['info'][:300].replace('\n', ' ')))
    for u in unsup:
        print("outside the verifier's reach, executable contract stands in (bounded):", u)
    violation = None
    kf = known_findings(pid)
    lines = []
    if rep and rep.get('error'):
        print("executable contracts:", rep['error'][-2000:])
    vs = rep.get('violations', []) if rep else []
    for v in vs:
        if v.get('key') in kf:
            lines.append("KNOWN-FINDING: property=%s %s" % (pid, v['key']))
        elif violation is None:
            violation = dict(kind='input', detail=v)
    bu = set()
    bup = os.path.join(VERIF, 'baseline', 'undischarged.json')
    if os.path.exists(bup):
        bu = {tuple(x) for x in json.load(open(bup)).get(pid, [])}
    files = {m.CONTRACTS[i][0]: set(r['files']) for i, r in res.items()} if m else {}
    fresh = [o for o in undis if o['result'] != 'skipped' and (o['contract'], o['name']) not in bu and set(changed) & files.get(o['contract'], set())]
    if violation is not None and fresh:
        violation['failed_obligations'] = [dict(contract=o['contract'], name=o['name'], where=o['where'],
                                                result=o['result']) for o in fresh]
        print("failed obligation: %s / %s at %s (%s)" % (fresh[0]['contract'], fresh[0]['name'], fresh[0]['where'],
                                                         fresh[0]['result']))
    if violation is None and fresh and changed:
        undis = fresh + [o for o in undis if o not in fresh]
        violation = dict(kind='obligation', detail=undis[0], all=[dict(contract=o['contract'], name=o['name'],
                         where=o['where'], result=o['result']) for o in undis])
    cov = dict(obligations=len(obs), discharged=discharged,
               checker_cmd="./check %s --tier %s" % (pid, tier), trusted_base=trusted,
               functions_under_contract=sorted(executed), contracts_used_at_calls=sorted(used),
               contracts=[m.CONTRACTS[i][0] for i in sorted(res)] if m else [],
               backends=backends, solver_s=round(solver_s, 2),
               undischarged=[dict(contract=o['contract'], name=o['name'], where=o['where'], result=o['result'])
                             for o in undis],
               not_reached_by_verifier=unsup, changed_since_baseline=changed,
               samples=[dict(contract=o['contract'], obligation=o['name'], where=o['where'], result=o['result'],
                             backend=o['backend'], seconds=o['time']) for o in obs[::max(1, len(obs) // 12)]][:14])
    if rep:
        cov['evaluations'] = rep.get('evaluations', 0)
        cov['distinct_nontrivial'] = rep.get('distinct_nontrivial', 0)
        cov['rule'] = ("executable contracts (bounded, never counted as proved): " + rep.get('rule', ''))
        cov['executable_contract_samples'] = rep.get('samples', [])[:5]
        if rep.get('error'):
            cov['executable_contract_error'] = rep['error'][-1500:]
        if rep.get('skipped'):
            cov['executable_contract_skipped'] = rep['skipped']
    if errors:
        cov['engine_errors'] = errors
    ev = dict(property=pid, tier=tier, seed=seed, level='proof' if obs else 'other', coverage=cov,
              assumptions=list(getattr(m, 'ASSUMES', [])) if m else [], wall_s=round(time.time() - t0, 2),
              violations=1 if violation else 0)
    if not obs:
        cov['explanation'] = "no obligation could be generated on this tree; bounded executable contracts only"
    evp = a.evidence or os.path.join(VERIF, 'evidence', pid + '.json')
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    with open(evp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d obligations, %d discharged, %d contracts, %s executable-contract evaluations, %.0f s" % (
        pid, tier, len(obs), discharged, len(res), cov.get('evaluations', 0), time.time() - t0))
    for ln in lines:
        print(ln)
    if violation is not None:
        rd = os.path.join(VERIF, 'evidence', 'replays')
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, '%s.json' % pid)
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, violation=violation, changed=changed,
                           rerun="VERIF_SEED=%d ./check %s --tier %s" % (seed, pid, tier)), f, indent=1, default=str)
        if violation['kind'] == 'input':
            d = violation['detail']
            print("failing input: %s" % (str(d.get('clause', ''))[:500]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        else:
            d = violation['detail']
            print("failed obligation: %s / %s at %s (%s)" % (d['contract'], d['name'], d['where'], d['result']))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, rp))
        return 1
    if not changed and (errors or (rep and rep.get('error'))):
        print("error of the check on the unchanged tree")
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
