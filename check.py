#!/opt/venv/bin/python
"""check.py PID : decide one property.  Exit 0 held, 1 violated (VIOLATION line)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

V = '/verif'
PY = '/opt/venv/bin/python'
TRUSTED = [
    'CPython executes the rewritten functions as the originals (pyvc/loader.py: loops, comprehensions, item stores, '
    'string formatting become hooks; nothing is dropped)',
    'floating point treated as mathematical reals, machine integers as mathematical integers; denominators non-zero',
    'numpy/scipy/stdlib: assumed contracts in pyvc/arr.py and pyvc/npshim.py (cross-checked by the concrete executions)',
    'linearity and alpha-equivalence of finite sums, ring normal form (pyvc/poly.py)',
    'z3 5.3 / cvc5 as back ends',
]


def env(scratch, repo_path):
    e = dict(os.environ)
    for k in ('GETDIST_CONFIG', 'TMPSMALL', 'TRAVIS_BUILD_DIR', 'PYTHONPATH'):
        e.pop(k, None)
    for d in ('tmp', 'cache', 'mpl', 'home'):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    e.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR=scratch + '/mpl',
             TMPDIR=scratch + '/tmp', XDG_CACHE_HOME=scratch + '/cache', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             LANG='C.UTF-8', LC_ALL='C.UTF-8', HOME=scratch + '/home')
    return e


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(V + '/evidence', exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='pyvc_')
    try:
        code = run(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def load_expected(pid):
    """contracts whose unbounded proof is known to go through on the original tree"""
    try:
        with open(V + '/expected.json') as f:
            return set(json.load(f).get(pid, []))
    except OSError:
        return set()


def run(pid, tier, seed, scratch, t0):
    e = env(scratch, '/repo')
    lim = 780 if tier == 'quick' else 6 * 3600
    procs = {}
    for mode in ('sym', 'conc'):
        out = os.path.join(scratch, mode + '.json')
        procs[mode] = (subprocess.Popen([PY, V + '/pyvc/worker.py', mode, pid, out], env=e, cwd=scratch,
                                        stdin=subprocess.DEVNULL, start_new_session=True), out)
    res = {}
    for mode, (p, out) in procs.items():
        try:
            p.wait(max(1, lim - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        try:
            with open(out) as f:
                res[mode] = json.load(f)
        except Exception:
            res[mode] = {}
    sys.path.insert(0, V)
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    from pyvc.worker import load, proved
    cons = load(pid)
    known = load_known(pid)

    # counter-models to replay on the real code
    reqs = []
    for n, s in res['sym'].items():
        if not cons[n].concrete:
            continue        # its inputs (files of any content, objects of any number) have no concrete form
        for mode in ('bounded', 'proof'):
            for name, m in (s.get(mode) or {}).get('models', []):
                if m is not None:
                    reqs.append((n, m, name))
    replays = []
    if reqs:
        out = os.path.join(scratch, 'replay.json')
        try:
            subprocess.run([PY, V + '/pyvc/worker.py', 'replay', pid, out], env=e, cwd=scratch,
                           input=json.dumps([(a, b) for a, b, c in reqs]), text=True, timeout=320)
            with open(out) as f:
                replays = json.load(f)
        except Exception:
            replays = []

    violations = []      # (contract, obligation, msg, inputs, how)
    for (n, m, name), r in zip(reqs, replays):
        if r and 'r' in r and r['r'][0] == 'fail':
            violations.append((n, r['r'][1], r['r'][2], m, 'counter-model of obligation %s replayed on the real code' % name))
    for n, s in res['conc'].items():
        for f in s.get('fails', []):
            violations.append((n, f['obligation'], f['msg'], f['inputs'], 'concrete execution, seed %s' % f['seed']))
    have_input = {v[0] for v in violations}
    # obligations proved on the unchanged tree and refuted now: search harder for a failing input
    expected = load_expected(pid)
    lost = {}
    for n, s in res['sym'].items():
        p = s.get('proof') or {}
        bad = [k for k, o in p.get('obligations', {}).items() if o['status'] == 'refuted' and k != 'no-exception']
        if n in expected and bad and not p.get('unsupported') and n not in have_input:
            lost[n] = bad
    if lost:
        out = os.path.join(scratch, 'deep.json')
        try:
            subprocess.run([PY, V + '/pyvc/worker.py', 'deep', pid, out], env=e, cwd=scratch, input=json.dumps(sorted(lost)), text=True, timeout=160)
            with open(out) as f:
                deep = json.load(f)
        except Exception:
            deep = {}
        for n, s in deep.items():
            for f in s.get('fails', []):
                violations.append((n, f['obligation'], f['msg'], f['inputs'], 'obligation %s refuted; concrete search, seed %s' % (lost[n][0], f['seed'])))
        have_input = {v[0] for v in violations}
        for n in lost:
            # a loop invariant that no longer fits the loop is not by itself a broken property
            post = [k for k in lost[n] if not k.startswith('loop-')]
            if post and n not in have_input and not proved(res['sym'][n].get('bounded')):
                violations.append((n, post[0], 'obligation proved on the original tree is refuted by the solver: %s' %
                                   res['sym'][n]['proof']['obligations'][post[0]].get('detail', ''), None, 'solver refutation, not reproduced concretely'))
    # faithful refutations that could not be replayed
    for n, s in res['sym'].items():
        if n in {v[0] for v in violations}:
            continue
        for mode in ('bounded', 'proof'):
            for name, o in (s.get(mode) or {}).get('obligations', {}).items():
                if o['status'] == 'refuted' and o['faithful'] and mode == 'bounded' and name != 'no-exception':
                    violations.append((n, name, 'obligation refuted by the solver: %s' % o.get('detail', ''), None,
                                       'solver refutation at bounded size, not reproduced concretely'))

    # contracts registered as known findings
    real, shown = [], set()
    for v in violations:
        k = known.get(v[0])
        if k:
            if v[0] not in shown:
                shown.add(v[0])
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
        else:
            real.append(v)

    # ---- evidence
    per, nob, ndis, solver = [], 0, 0, 0.0
    backends, funcs, proved_f = {}, set(), set()
    unb, bnd, conc_only = 0, 0, 0
    for n, c in cons.items():
        s = res['sym'].get(n, {})
        cc = res['conc'].get(n, {})
        row = {'contract': n, 'functions': c.functions}
        funcs.update(c.functions)
        st = 'concrete executions only (bounded stand-in)'
        if c.symbolic:
            p, b = s.get('proof'), s.get('bounded')
            if proved(p):
                st = 'proved (unbounded)'
                unb += 1
                proved_f.update(c.functions)
            elif proved(b):
                st = 'bounded: all inputs at sizes of the stated range' + ('' if not c.proof else ' (unbounded proof undecided)')
                bnd += 1
            else:
                st = 'undecided symbolically; concrete executions stand in' if not any(v[0] == n for v in violations) else 'violated'
                conc_only += 1
            for q in (p, b):
                if not q:
                    continue
                solver += q['solver_s']
            row['sym_s'] = s.get('s')
            und = {}
            for q in (p, b):
                for name, o in (q or {}).get('obligations', {}).items():
                    if o['status'] != 'discharged':
                        und['%s:%s' % (q['mode'], name)] = '%s %s' % (o['status'], o.get('detail', ''))
            if und:
                row['undischarged'] = und
            if p:
                row['paths'] = p['paths']
                row['unsupported'] = p['unsupported']
                for name, o in p['obligations'].items():
                    nob += o['instances']
                    ndis += o['discharged']
                    for bk, k in o['backend'].items():
                        backends[bk] = backends.get(bk, 0) + k
            if b:
                row['bounded_obligations'] = sum(o['instances'] for o in b['obligations'].values())
                row['bounded_discharged'] = sum(o['discharged'] for o in b['obligations'].values())
                if b['unsupported']:
                    row['bounded_unsupported'] = b['unsupported']
            if s.get('timeout') or s.get('crash'):
                row['problem'] = s
        else:
            conc_only += 1
        row['status'] = st
        if c.note:
            row['note'] = c.note
        if cc:
            row['concrete'] = {k: cc.get(k) for k in ('ok', 'skip', 'checks', 'distinct', 's')}
            if cc.get('errors'):
                row['harness_errors'] = cc['errors']
            if cc.get('timeout') or cc.get('crash'):
                row['concrete_problem'] = cc
        per.append(row)
    evals = sum((r.get('concrete') or {}).get('ok') or 0 for r in per)
    dist = sum((r.get('concrete') or {}).get('distinct') or 0 for r in per)
    bob = sum(r.get('bounded_obligations', 0) for r in per)
    bdis = sum(r.get('bounded_discharged', 0) for r in per)
    level = 'proof' if unb else 'exploration'
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
    except Exception:
        pass
    if pid in man:
        level = man[pid]['level']
    samples = [json.dumps({'contract': n, 'inputs': s.get('sample')})[:600] for n, s in res['conc'].items() if s.get('sample')][:4]
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'VERIF_TIER=%s %s %s/check.py %s' % (tier, PY, V, pid),
                       'trusted_base': TRUSTED, 'contracts': len(cons), 'contracts_proved_unbounded': unb,
                       'contracts_bounded_symbolic': bnd, 'contracts_concrete_only': conc_only,
                       'bounded_obligations': bob, 'bounded_discharged': bdis,
                       'back_ends': backends, 'solver_s': round(solver, 3),
                       'functions_under_contract': sorted(funcs), 'functions_proved': sorted(proved_f),
                       'evaluations': evals, 'distinct_nontrivial': dist,
                       'rule': 'contract inputs drawn by the contract generators with VERIF_SEED; counted when the '
                               'precondition holds and the inputs differ from the others', 'samples': samples,
                       'per_contract': per},
          'assumptions': TRUSTED + sorted({a for c in cons.values() for a in c.assumes}),
          'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    with open('%s/evidence/%s.json' % (V, pid), 'w') as f:
        json.dump(ev, f, indent=1, default=str)

    for row in per:
        print('%-10s %-40s %s' % (pid, row['contract'], row['status'] + (' [harness errors]' if row.get('harness_errors') else '')))
    total = nob + bob + evals
    if total == 0 and not real:
        print('no obligation and no execution: the check is broken')
        return 2
    if real:
        seen = set()
        k = 0
        for v in real:
            if (v[0], v[1]) in seen:
                continue
            seen.add((v[0], v[1]))
            k += 1
            path = '%s/evidence/replay_%s_%d.json' % (V, pid, k)
            with open(path, 'w') as f:
                json.dump({'property': pid, 'contract': v[0], 'obligation': v[1], 'message': v[2], 'inputs': v[3], 'found_by': v[4],
                           'functions': cons[v[0]].functions,
                           'verifier': res['sym'].get(v[0]),
                           'replay_cmd': "echo '[[\"%s\", <inputs>]]' | %s %s/pyvc/worker.py replay %s OUT" % (v[0], PY, V, pid)},
                          f, indent=1, default=str)
            print('obligation %s/%s failed: %s' % (v[0], v[1], str(v[2])[:600]))
            print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if v[3] is not None else ' no-failing-input-found'))
            if k >= 5:
                break
        return 1
    print('property %s: %d contracts, %d proved unbounded, %d bounded, %d concrete-only; %d/%d obligations discharged, %d executions, %.0f s'
          % (pid, len(cons), unb, bnd, conc_only, ndis, nob, evals, time.time() - t0))
    return 0


def load_known(pid):
    out = {}
    try:
        for line in open(V + '/known_findings.jsonl'):
            line = line.strip()
            if line and not line.startswith('fixed:'):
                d = json.loads(line)
                if d.get('property') == pid and d.get('contract'):
                    out[d['contract']] = d
    except FileNotFoundError:
        pass
    return out


if __name__ == '__main__':
    main()
