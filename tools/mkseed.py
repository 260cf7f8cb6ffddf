#!/opt/venv/bin/python
"""mkseed.py SPEC.py...: make and confirm planted bugs.  SPEC defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python source)].
For each: scratch copy of /repo, apply, diff, build-free import check, stable tests, demo on both trees; writes /verif/seeded/<id>."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = '/verif'


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def main():
    notest = '--notest' in sys.argv
    only = [a[3:] for a in sys.argv if a.startswith('id=')]
    for path in [a for a in sys.argv[1:] if a.endswith('.py')]:
        spec = importlib.util.spec_from_file_location('seedspec', path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            if only and s['id'] not in only:
                continue
            make(s, notest)


def make(s, notest):
    sw = tempfile.mkdtemp(prefix='seed_')
    d = '%s/seeded/%s' % (V, s['id'])
    try:
        r = sh('cp -a /repo %s/repo' % sw)
        assert r.returncode == 0, r.stderr
        W = sw + '/repo'
        for f, old, new in s['edits']:
            t = open(W + '/' + f).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(W + '/' + f, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % W).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write("import os, sys\nsys.path.insert(0, os.path.join(os.getcwd(), 'python'))\nsys.dont_write_bytecode = True\n" + s['demo'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                        'D="$(cd "$(dirname "$0")" && pwd)"\nS=$(mktemp -d)\nexport XDG_CACHE_HOME="$S" MPLCONFIGDIR="$S" TMPDIR="$S"\n'
                                        '/opt/venv/bin/python "$D/demo.py" "$S"\nR=$?\nrm -rf "$S"\nexit $R\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        a = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
        b = sh('bash %s/demo.sh' % d, cwd=W, timeout=300)
        if not (a.returncode == 0 and b.returncode != 0):
            print(s['id'], 'BAD DEMO clean=%d patched=%d' % (a.returncode, b.returncode), a.stderr[-800:], b.stdout[-300:])
            return
        if not notest:
            ts = open('/opt/vp/test.sh').read().replace('/repo', W)
            open(sw + '/test.sh', 'w').write(ts)
            t = sh('bash %s/test.sh %s/out.json' % (sw, sw), timeout=600)
            o = json.load(open(sw + '/out.json'))
            base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            ok = base <= set(o.get('passed', []))
            print(s['id'], 'demo ok', b.stderr.strip().split('\n')[-1][:150], '| tests', 'ok' if ok else 'FAIL %s' % sorted(base - set(o.get('passed', []))))
        else:
            print(s['id'], 'demo ok', b.stderr.strip().split('\n')[-1][:150])
    finally:
        shutil.rmtree(sw, ignore_errors=True)


main()
