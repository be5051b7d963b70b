"""setup: the tools the checks need are present and the engine works"""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import z3
from dv import prove
from dv.core import Ctx
c = Ctx('self')
n = c.fresh('n', z3.IntSort())
c.assume(n > 0)
c.oblige('positive', n >= 1)
prove.discharge(c)
assert c.obligations[0].result == 'proved'
assert os.path.exists('/opt/venv/bin/python')
# lemmas on sums, counts, positions and strides (axioms of the engine): Lean accepts the proofs, none is left out
f = os.path.join(V, 'lemmas', 'Sums.lean')
p = subprocess.run(['lean', f], capture_output=True, text=True, timeout=1200, cwd='/tmp')
assert p.returncode == 0 and 'error' not in p.stdout and 'sorry' not in p.stdout, p.stdout + p.stderr
print('lemmas ok')
