#!/opt/venv/bin/python
"""print the undecided parts of evidence/<PID>.json"""
import json, sys
for pid in sys.argv[1:]:
    e = json.load(open('/verif/evidence/%s.json' % pid))
    print(pid, 'wall', e['wall_s'])
    for r in e['coverage']['per_contract']:
        x = {k: r.get(k) for k in ('unsupported', 'bounded_unsupported', 'problem', 'harness_errors', 'concrete_problem') if r.get(k)}
        und = {k: v for k, v in r.get('undischarged', {}).items()}
        print(' ', r['contract'], '|', r['status'][:40], '| paths', r.get('paths'), '| conc', (r.get('concrete') or {}).get('ok'), (r.get('concrete') or {}).get('skip'), '| s', r.get('sym_s'), (r.get('concrete') or {}).get('s'))
        for k, v in x.items():
            print('      ', k, v)
        if und:
            print('       undischarged', und)
