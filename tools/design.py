"""writes DESIGN.md from design_head.md, the properties, the last evidence, and design_tail.md"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = V + '/tools/'
HOW = json.load(open(T + 'design_how.json'))
out = [open(T + 'design_head.md').read().rstrip(), '']
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    try:
        e = json.load(open('%s/evidence/%s.json' % (V, p['id'])))
    except OSError:
        continue
    out += ['', '### %s %s' % (p['id'], p['title']), '', p['statement'], '', HOW.get(p['id'], ''), '', '| contract | functions | status |', '|---|---|---|']
    for r in e['coverage']['per_contract']:
        st = r['status'].split(' (')[0].split(':')[0].replace('concrete executions only', 'concrete')
        fs = sorted({f.split(':')[1] for f in r['functions']})
        out.append('| %s | %s | %s |' % (r['contract'], ', '.join(fs[:9]) + (', …' if len(fs) > 9 else ''), st))
seeds = ['| planted bug | caught by | what breaks |', '|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, s)))
    seeds.append('| %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/')))
out += ['', open(T + 'design_tail.md').read().replace('SEEDS', '\n'.join(seeds))]
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
