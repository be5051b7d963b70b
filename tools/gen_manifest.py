import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(os.path.join(V, 'contracts', i + '.py')) and os.path.exists(os.path.join(V, 'replay', i + '.py')) and i in NOTE:
        checks.append(dict(property=i, quick_cmd='./check %s' % i, thorough_cmd='./check %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i,
                           technique='contract-based deductive verification (symbolic execution of the real source against sidecar contracts, z3/cvc5)',
                           level='proof', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason='not claimed yet: contracts under construction'))
json.dump(dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python tools/selftest.py', checks=checks, not_applicable=na),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', [c['property'] for c in checks])
