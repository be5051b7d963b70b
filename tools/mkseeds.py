"""python3 tools/mkseeds.py [id ...]: build /verif/seeded/<id> from tools/seedsrc/bugs.py and validate each in a scratch copy"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(V, 'tools/seedsrc/bugs.py')).read(), ns)
BUGS = ns['BUGS']
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
ENV = dict(os.environ, PYTHONPATH='/opt/vp/plugins', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def sh(cmd, cwd, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def one(bug):
    i = bug['id']
    d = os.path.join(V, 'seeded', i)
    tmp = tempfile.mkdtemp(prefix='seed-%s-' % i, dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        sh('cp -a /repo %s' % r, '/tmp')
        sh('git checkout -q -- . ', r)
        for f, old, new in bug['edits']:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return i, 'EDIT does not match once: %r in %s (%d)' % (old, f, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        if any(f.startswith('violations') for f, _, _ in bug['edits']):
            rc, out = sh('rm -rf build violations.*.so violations.cpp && /opt/venv/bin/python setup_violations.py build_ext --inplace --force', r)
            if rc:
                return i, 'BUILD fails ' + out[-300:]
        rc, patch = sh('git diff', r)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.py'), 'w').write(bug['demo'].lstrip('\n'))
        shutil.copy(os.path.join(V, 'tools/seedsrc/inst.py'), os.path.join(d, 'inst.py'))
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d"\nexec /opt/venv/bin/python "$d/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc0, o0 = sh('bash %s/demo.sh' % d, '/repo')
        rc1, o1 = sh('bash %s/demo.sh' % d, r)
        if rc0 != 0:
            return i, 'DEMO fails on the unchanged tree: ' + o0[-1500:]
        if rc1 == 0:
            return i, 'DEMO passes with the patch ' + o1[-300:]
        e1 = o1.strip().split('\n')[-1]
        rep = os.path.join(tmp, 'j.xml')
        rc, out = sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -p vp_seed --timeout=60 -o junit_family=xunit2 --junitxml=%s' % rep, r, ENV)
        rc2, o2 = sh('python3 /opt/vp/results.py %s/o.json junit:%s' % (tmp, rep), r)
        res = json.load(open(tmp + '/o.json'))
        passed = set(res.get('passed', res.get('pass', [])))
        bad = sorted(STABLE - passed)
        if bad:
            return i, 'TESTS fail: %d %s' % (len(bad), bad[:2])
        return i, 'ok  [%s]' % e1[:150]
    except Exception as e:
        return i, 'ERROR %r' % e
    finally:
        shutil.rmtree(tmp, True)


if __name__ == '__main__':
    want = sys.argv[1:]
    todo = [b for b in BUGS if not want or b['id'] in want or b['property'] in want]
    with ThreadPoolExecutor(4) as ex:
        for i, res in ex.map(one, todo):
            print(i, res, flush=True)
            if not res.startswith('ok'):
                shutil.rmtree(os.path.join(V, 'seeded', i), True)
