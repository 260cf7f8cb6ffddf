"""worker.py sym|conc|replay PID OUT   (environment: VERIF_TIER, VERIF_SEED)

sym    : symbolic execution of all contracts of the property (proof mode, then bounded mode where not proved)
conc   : concrete executions of the same contracts on the unmodified modules
replay : concrete executions of given inputs (stdin: list of [contract, inputs])
Each contract runs in a forked child with a time limit."""
import importlib
import json
import os
import signal
import sys
import time

sys.path.insert(0, '/verif')
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)


def load(pid):
    from pyvc import api
    for f in sorted(os.listdir('/verif/contracts')):
        if f.lower().startswith(pid.lower() + '_') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
    return api.REG.get(pid, {})


def pool(tasks, njobs, limit):
    """tasks: list of (key, fn, timeout) -> {key: result}; results via files (fork)"""
    res = {}
    running = {}
    queue = list(tasks)
    tmp = os.environ.get('TMPDIR', '/tmp')
    t_end = time.time() + limit
    while queue or running:
        while queue and len(running) < njobs:
            key, fn, to = queue.pop(0)
            path = os.path.join(tmp, 'r_%d_%s.json' % (os.getpid(), key.replace('/', '_')))
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    import resource
                    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get('PYVC_DEBUG'):
                        os.dup2(dn, 2)
                    d = os.path.join(tmp, 'w_%d' % os.getpid())
                    os.makedirs(d, exist_ok=True)
                    os.chdir(d)
                    r = fn()
                    with open(path + '.tmp', 'w') as f:
                        json.dump(r, f, default=str)
                    os.rename(path + '.tmp', path)
                except BaseException as e:
                    import traceback
                    with open(path + '.tmp', 'w') as f:
                        json.dump({'crash': traceback.format_exc()[-1500:]}, f)
                    os.rename(path + '.tmp', path)
                    code = 3
                os._exit(code)
            running[pid] = (key, path, time.time() + to)
        time.sleep(0.02)
        now = time.time()
        for pid in list(running):
            key, path, dl = running[pid]
            p, st = os.waitpid(pid, os.WNOHANG)
            if p == 0:
                if now > dl or now > t_end:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except OSError:
                        try:
                            os.kill(pid, signal.SIGKILL)
                        except OSError:
                            pass
                    os.waitpid(pid, 0)
                    res[key] = {'timeout': True}
                    del running[pid]
                continue
            del running[pid]
            try:
                with open(path) as f:
                    res[key] = json.load(f)
            except Exception:
                res[key] = {'crash': 'worker died (status %s)' % st}
        if now > t_end:
            for key, fn, to in queue:
                res[key] = {'timeout': True}
            queue = []
    return res


def do_sym(pid, tier):
    from pyvc import loader, sym, specs
    loader.install()
    cons = load(pid)
    mods = set()
    for c in cons.values():
        for f in c.functions:
            m = f.split(':')[0]
            mods.add(m)
    for m in sorted(mods):
        try:
            importlib.import_module(m)
        except Exception as e:
            pass
    mult = 1 if tier == 'quick' else 4

    def task(con):
        def f():
            out = {}
            t0 = time.time()
            if con.proof:
                r = sym.explore(con, 'proof', con.timeout * mult)
                out['proof'] = sym.summary(r)
            if con.bounded and (not con.proof or not proved(out.get('proof'))):
                r = sym.explore(con, 'bounded', con.timeout * mult)
                out['bounded'] = sym.summary(r)
            out['s'] = round(time.time() - t0, 2)
            return out
        return f
    tasks = [(n, task(c), c.timeout * mult * 2.2 + 20) for n, c in cons.items() if c.symbolic]
    return pool(tasks, 5, 700 * mult)


def proved(s):
    return bool(s) and not s['unsupported'] and s['obligations'] and s['vacuous'] == 0 and \
        all(o['status'] == 'discharged' for o in s['obligations'].values())


def do_conc(pid, tier, seed):
    from pyvc import api
    sys.path.insert(0, '/repo/python')
    cons = load(pid)
    for c in cons.values():
        for f in c.functions:
            try:
                importlib.import_module(f.split(':')[0])
            except Exception:
                pass
    mult = 3 if tier == 'quick' else 15

    def task(con):
        def f():
            t0 = time.time()
            n = con.runs * mult
            ok = skip = checks = 0
            distinct = set()
            errs = []
            fails = []
            sample = None
            lim = 60 if tier == 'quick' else 900
            for k in range(n):
                if time.time() - t0 > lim:
                    break
                r = api.run_concrete(con, '%s/%s/%s' % (seed, con.name, k))
                if r[0] == 'ok':
                    ok += 1
                    checks += r[1]
                    key = json.dumps(r[2], default=str, sort_keys=True)
                    distinct.add(hash(key))
                    if sample is None:
                        sample = key[:400]
                elif r[0] == 'skip':
                    skip += 1
                elif r[0] == 'fail':
                    fails.append({'obligation': r[1], 'msg': r[2][:3000], 'inputs': r[3], 'seed': '%s/%s/%s' % (seed, con.name, k)})
                    if len(fails) >= 3:
                        break
                else:
                    errs.append(r[1][-800:])
                    if len(errs) > 40:
                        break
            return {'ok': ok, 'skip': skip, 'checks': checks, 'distinct': len(distinct), 'errors': errs[:2], 'fails': fails,
                    'sample': sample, 's': time.time() - t0}
        return f
    tasks = [(n, task(c), 120 if tier == 'quick' else 1200) for n, c in cons.items() if c.concrete]
    return pool(tasks, 4, 600 if tier == 'quick' else 3600)


def do_deep(pid):
    """longer concrete search, also at larger sizes, for the named contracts"""
    from pyvc import api
    sys.path.insert(0, '/repo/python')
    cons = load(pid)
    names = json.load(sys.stdin)

    def task(con):
        def f():
            t0 = time.time()
            k = 0
            while time.time() - t0 < 30 and k < 5000:
                k += 1
                sd = 'deep/%s/%s' % (con.name, k)
                r = api.run_concrete(con, sd, grow=(1, 2, 8)[k % 3])
                if r[0] == 'fail':
                    return {'fails': [{'obligation': r[1], 'msg': r[2][:3000], 'inputs': r[3], 'seed': sd}]}
            return {'fails': []}
        return f
    return pool([(n, task(cons[n]), 60) for n in names if n in cons and cons[n].concrete], 6, 150)


def do_replay(pid):
    from pyvc import api
    sys.path.insert(0, '/repo/python')
    cons = load(pid)
    reqs = json.load(sys.stdin)

    def task(con, given, k):
        def f():
            r = api.run_concrete(con, 'replay', given)
            return {'r': [x if not isinstance(x, dict) else x for x in r]}
        return f
    tasks = [('%d' % k, task(cons[n], g, k), 60) for k, (n, g) in enumerate(reqs)]
    res = pool(tasks, 4, 300)
    return [res.get('%d' % k) for k in range(len(reqs))]


if __name__ == '__main__':
    mode, pid, out = sys.argv[1:4]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = os.environ.get('VERIF_SEED', '1')
    if mode == 'sym':
        r = do_sym(pid, tier)
    elif mode == 'conc':
        r = do_conc(pid, tier, seed)
    elif mode == 'deep':
        r = do_deep(pid)
    else:
        r = do_replay(pid)
    with open(out, 'w') as f:
        json.dump(r, f, default=str)
