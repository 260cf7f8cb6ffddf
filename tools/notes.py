"""level and level_note per property (from the last evidence of the unchanged tree), reasons for unclaimed ones"""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ('Obligations are generated on every run from /repo\'s current source by symbolic execution of the real functions on inputs of symbolic size; '
          'reals stand for floats; assumed numpy/scipy contracts are cross-checked by concrete executions of the same contracts. ')
EXTRA = {}
NA = {}


def note(pid):
    try:
        with open('%s/evidence/%s.json' % (V, pid)) as f:
            e = json.load(f)
    except OSError:
        return None
    pr, bo, co = [], [], []
    for r in e['coverage']['per_contract']:
        (pr if r['status'].startswith('proved') else bo if r['status'].startswith('bounded') else co).append(r['contract'])
    t = COMMON
    if pr:
        t += 'Proved for all inputs: %s. ' % ', '.join(pr)
    if bo:
        t += 'Symbolic at bounded sizes only (not counted as proved): %s. ' % ', '.join(bo)
    if co:
        t += 'Bounded stand-in, concrete executions of the contract on generated inputs (not counted as proved): %s. ' % ', '.join(co)
    t += EXTRA.get(pid, '')
    return ('proof' if pr else 'exploration', t.strip())


NOTES = {'C%02d' % k: note('C%02d' % k) for k in range(1, 40) if note('C%02d' % k)}
