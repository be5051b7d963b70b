import importlib.util
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import common


def main():
    pid, out = sys.argv[1], sys.argv[2]
    H = common.Harness(pid)
    rule = ''
    try:
        spec = importlib.util.spec_from_file_location('replay_' + pid, os.path.join(here, pid + '.py'))
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        rule = m.RULE
        for part in m.PARTS:
            try:
                part(H)
            except common.Found:
                break
            except Exception:
                H.errors.append("%s: %s" % (part.__name__, traceback.format_exc()[-1800:]))
    except common.Found:
        pass
    except Exception:
        H.errors.append(traceback.format_exc()[-2500:])
    res = dict(evaluations=H.evals, distinct_nontrivial=len(H.keys), rule=rule, samples=H.samples,
               violations=H.violations, skipped=H.skipped, error='\n'.join(H.errors) or None)
    with open(out, 'w') as f:
        json.dump(res, f, default=str)


main()
