"""After a full run on the unchanged tree: remember which obligations the verifier could not discharge there
(they are never counted as proved, and are not an alarm when the source changes)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'baseline', 'undischarged.json')
out = json.load(open(p)) if os.path.exists(p) else {}
for f in sorted(glob.glob(os.path.join(V, 'evidence', 'C*.json'))):
    e = json.load(open(f))
    if e['coverage'].get('changed_since_baseline'):
        continue
    u = sorted({(o['contract'], o['name']) for o in e['coverage'].get('undischarged', [])})
    if u:
        out[e['property']] = u
    else:
        out.pop(e['property'], None)
json.dump(out, open(p, 'w'), indent=1, sort_keys=True)
print({k: len(v) for k, v in out.items()})
