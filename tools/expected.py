"""expected.json: contracts proved (unbounded) by the last run of every check on the unchanged tree"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(os.listdir(V + '/evidence')):
    if f[0] == 'C' and f.endswith('.json'):
        e = json.load(open(V + '/evidence/' + f))
        out[e['property']] = sorted(r['contract'] for r in e['coverage']['per_contract'] if r['status'].startswith('proved'))
json.dump(out, open(V + '/expected.json', 'w'), indent=1)
print({k: len(v) for k, v in out.items()})
