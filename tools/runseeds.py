"""python3 tools/runseeds.py [-j N] [seed or property ...]: run each seeded bug's check on a patched scratch copy (not used by any check)"""
import json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i, extra=()):
    d = os.path.join(V, 'seeded', i)
    pid = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='rs-%s-' % i, dir='/tmp')
    try:
        r = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        subprocess.run(['git', 'checkout', '-q', '--', '.'], cwd=r, check=True)
        subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, check=True)
        t = time.time()
        p = subprocess.run(['./check', pid, '--evidence', tmp + '/ev.json', *extra], cwd=V, env=dict(os.environ, DV_REPO=r), capture_output=True, text=True, stdin=subprocess.DEVNULL)
        o = p.stdout.strip().split('\n')
        return i, p.returncode, time.time() - t, [x for x in o if 'VIOLATION' in x or 'failing' in x or 'failed obl' in x or 'outside' in x] or o[-2:]
    finally:
        shutil.rmtree(tmp, True)


if __name__ == '__main__':
    a = sys.argv[1:]
    j = 2
    if a[:1] == ['-j']:
        j = int(a[1])
        a = a[2:]
    extra = [x for x in a if x.startswith('--')]
    a = [x for x in a if not x.startswith('--')]
    ids = sorted(x for x in os.listdir(V + '/seeded') if not a or x in a or x.split('-')[0] in a)
    with ThreadPoolExecutor(j) as ex:
        for i, rc, t, o in ex.map(lambda x: one(x, extra), ids):
            print('%-28s rc=%d %4.0fs %s' % (i, rc, t, ' | '.join(x[:160] for x in o)), flush=True)
