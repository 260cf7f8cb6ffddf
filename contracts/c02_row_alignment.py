"""C02: samples, weights and likelihoods stay aligned"""
import numpy as np
from pyvc.api import contract
from contracts.common import ws, mask

CH = 'getdist.chains:'


def aligned_rows(c, b, s, keep):
    c.check_rows('samples', s.samples, b.n, keep, b.x, (b.p,))
    c.check_rows('weights', s.weights, b.n, keep, b.wt)
    if b.L is None:
        c.check_is('loglikes', s.loglikes, None)
    else:
        c.check_rows('loglikes', s.loglikes, b.n, keep, lambda i: c.at(b.L, i))
    c.check_eq('numrows', s.numrows, c.sum(b.n, lambda i: c.ite(keep(i), 1, 0)))
    c.check_eq('n', s.n, b.p)
    c.check_eq('norm', s.norm, c.sum(b.n, lambda i: c.ite(keep(i), b.wt(i), 0)))


@contract('C02', 'filter_mask', [CH + 'WeightedSamples.filter', CH + 'WeightedSamples.setSamples'])
def _(c):
    b = mask(c, ws(c, c.dim('n'), c.dim('p'), like=c.flag('like')))
    b.s.filter(b.B)
    aligned_rows(c, b, b.s, lambda i: c.at(b.B, i))


@contract('C02', 'filter_twice', [CH + 'WeightedSamples.filter'], proof=False, timeout=60)
def _(c):
    b = mask(c, ws(c, c.dim('n', small=(2,)), c.dim('p', small=(1,))))
    b.s.filter(b.B)
    t = c.real('t')
    keep = lambda i: c.And(c.at(b.B, i), b.x(i, 0) > t)
    b.s.filter(b.s.samples[:, 0] > t)
    aligned_rows(c, b, b.s, keep)


@contract('C02', 'filter_indices', [CH + 'WeightedSamples.filter'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    m = c.dim('m', hi=6)
    ix = c.array('ix', (m,), kind='i', gen=lambda r, d: r.randint(0, int(b.n), d), pred=lambda x: c.And(x >= 0, x < b.n))
    b.s.filter(ix)
    c.check_arr('samples', b.s.samples, (m, b.p), lambda k, j: b.x(c.at(ix, k), j))
    c.check_arr('weights', b.s.weights, (m,), lambda k: b.wt(c.at(ix, k)))
    if b.L is not None:
        c.check_arr('loglikes', b.s.loglikes, (m,), lambda k: c.at(b.L, c.at(ix, k)))
    c.check_eq('numrows', b.s.numrows, m)


@contract('C02', 'deleteZeros', [CH + 'WeightedSamples.deleteZeros'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    b.s.deleteZeros()
    aligned_rows(c, b, b.s, lambda i: b.wt(i) > 0)


@contract('C02', 'setMinWeightRatio', [CH + 'WeightedSamples.setMinWeightRatio'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    r = c.real('r', 0, 1)
    b.s.setMinWeightRatio(r)
    mx = c.max(b.n, b.wt)
    mn = c.min(b.n, b.wt)
    if c.concrete:
        k0 = lambda i: b.wt(i) > mx * r
        keep = k0 if mn < mx * r else (lambda i: True)
    else:
        keep = lambda i: c.Or(b.wt(i) > mx * r, c.Not(mn < mx * r))
    aligned_rows(c, b, b.s, keep)


@contract('C02', 'constructor_min_ratio', [CH + 'WeightedSamples.__init__', CH + 'WeightedSamples.setSamples'], symbolic=False)
def _(c):
    ch = c.module('getdist.chains')
    n, p = c.dim('n'), c.dim('p')
    X, w, L = c.array('X', (n, p)), c.array('w', (n,), gen='weight'), c.array('L', (n,))
    like = c.flag('like')
    c.assume(w.sum() > 0)
    r = c.option('ratio', [1e-30, 0.1, 0.5, 0.0, -1])
    s = ch.WeightedSamples(samples=X.copy(), weights=w.copy(), loglikes=L.copy() if like else None, min_weight_ratio=r)
    keep = (w > w.max() * r) if r >= 0 and w.min() < w.max() * r else np.ones(n, bool)
    c.check_arr('samples', s.samples, (keep.sum(), p), lambda i, j: X[keep][i, j])
    c.check_arr('weights', s.weights, (keep.sum(),), lambda i: w[keep][i])
    if like:
        c.check_arr('loglikes', s.loglikes, (keep.sum(),), lambda i: L[keep][i])
    else:
        c.check_is('loglikes', s.loglikes, None)


@contract('C02', 'removeBurn_rows', [CH + 'WeightedSamples.removeBurn', CH + 'WeightedSamples.changeSamples'])
def _(c):
    b = ws(c, c.dim('n', lo=2), c.dim('p'), like=c.flag('like'), positive=True)
    m = c.int('m', 1, gen=lambda: c.rng.randint(1, max(1, int(b.n) - 1)))
    c.assume(m < b.n)
    b.s.removeBurn(m)
    rest = b.n - m
    c.check_arr('samples', b.s.samples, (rest, b.p), lambda i, j: b.x(i + m, j))
    c.check_arr('weights', b.s.weights, (rest,), lambda i: b.wt(i + m))
    if b.L is not None:
        c.check_arr('loglikes', b.s.loglikes, (rest,), lambda i: c.at(b.L, i + m))
    c.check_eq('numrows', b.s.numrows, rest)
    c.check_eq('norm', b.s.norm, c.sum(rest, lambda i: b.wt(i + m)))


@contract('C02', 'removeBurn_fraction', [CH + 'WeightedSamples.removeBurn'])
def _(c):
    b = ws(c, c.dim('n', lo=2), c.dim('p'), like=c.flag('like'), positive=True)
    f = c.real('f', 0, 1)
    c.assume(f < 1)
    x = b.n * f
    if c.concrete:
        m = int(round(int(b.n) * f))
    else:
        m = c.int('m', 0)
        c.assume(c.And(x - m <= 0.5, m - x <= 0.5))
        c.assume(c.And(c.Not(x - m == 0.5), c.Not(m - x == 0.5)))      # ties: either neighbour
    c.assume(m < b.n)
    b.s.removeBurn(f)
    rest = b.n - m
    c.check_arr('samples', b.s.samples, (rest, b.p), lambda i, j: b.x(i + m, j))
    c.check_arr('weights', b.s.weights, (rest,), lambda i: b.wt(i + m))
    if b.L is not None:
        c.check_arr('loglikes', b.s.loglikes, (rest,), lambda i: c.at(b.L, i + m))


@contract('C02', 'setColData', [CH + 'WeightedSamples.setColData'])
def _(c):
    ch = c.module('getdist.chains')
    n, p = c.dim('n'), c.dim('p')
    D = c.array('D', (n, p + 2), gen=lambda r, d: np.abs(r.normal(0, 1, d)) + 0.1)
    s = ch.WeightedSamples(min_weight_ratio=-1)
    if c.flag('chains'):
        s.setColData(c.fresh_copy(D))
        c.check_arr('samples', s.samples, (n, p), lambda i, j: c.at(D, i, j + 2))
        c.check_arr('weights', s.weights, (n,), lambda i: c.at(D, i, 0))
        c.check_arr('loglikes', s.loglikes, (n,), lambda i: c.at(D, i, 1))
    else:
        s.setColData(c.fresh_copy(D), are_chains=False)
        c.check_arr('samples', s.samples, (n, p + 2), lambda i, j: c.at(D, i, j))
        c.check_is('loglikes', s.loglikes, None)


@contract('C02', 'setSamples_vectors', [CH + 'WeightedSamples.setSamples'])
def _(c):
    ch = c.module('getdist.chains')
    n = c.dim('n')
    a, b, w = c.array('a', (n,)), c.array('b', (n,)), c.array('w', (n,), pred=lambda x: x > 0, gen='weight')
    k = c.option('how', ['list', 'tuple', 'vector'])
    if k == 'vector':
        s = ch.WeightedSamples(samples=c.fresh_copy(a), weights=c.fresh_copy(w), min_weight_ratio=-1)
        c.check_arr('samples', s.samples, (n, 1), lambda i, j: c.at(a, i))
    else:
        x = [c.fresh_copy(a), c.fresh_copy(b)]
        s = ch.WeightedSamples(min_weight_ratio=-1)
        s.setSamples(x if k == 'list' else tuple(x), weights=c.fresh_copy(w))
        c.check_arr('samples', s.samples, (n, 2), lambda i, j: c.at(a, i) if int(j) == 0 else c.at(b, i))
    c.check_arr('weights', s.weights, (n,), lambda i: c.at(w, i))


@contract('C02', 'constructor_ignore_rows', [CH + 'WeightedSamples.__init__', CH + 'slice_or_none'])
def _(c):
    ch = c.module('getdist.chains')
    n, p = c.dim('n', lo=2), c.dim('p')
    X, w, L = c.array('X', (n, p)), c.array('w', (n,), gen='weight', pred=lambda x: x > 0), c.array('L', (n,))
    m = c.int('m', 0, gen=lambda: c.rng.randint(0, int(n) - 1))
    c.assume(m < n)
    s = ch.WeightedSamples(ignore_rows=m, samples=c.fresh_copy(X), weights=c.fresh_copy(w), loglikes=c.fresh_copy(L), min_weight_ratio=-1)
    c.check_arr('samples', s.samples, (n - m, p), lambda i, j: c.at(X, i + m, j))
    c.check_arr('weights', s.weights, (n - m,), lambda i: c.at(w, i + m))
    c.check_arr('loglikes', s.loglikes, (n - m,), lambda i: c.at(L, i + m))


@contract('C02', 'param_vectors', [CH + 'WeightedSamples._makeParamvec', CH + 'WeightedSamples.__getitem__'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    j = c.int('j', 0, gen=lambda: c.rng.randrange(int(b.p)))
    c.assume(j < b.p)
    c.check_arr('col', b.s[j], (b.n,), lambda i: b.x(i, j))
    c.check_arr('like', b.s[-1], (b.n,), lambda i: c.at(b.L, i))
    c.check_arr('weight', b.s[-2], (b.n,), lambda i: b.wt(i))


@contract('C02', 'param_vector_errors', [CH + 'WeightedSamples._makeParamvec'])
def _(c):
    ch = c.module('getdist.chains')
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    c.check('past_end', c.raises((ch.WeightedSampleError,), lambda: b.s[b.p]))
    c.check('below', c.raises((ch.WeightedSampleError,), lambda: b.s[-3]))
    if b.L is None:
        c.check('no_loglikes', c.raises((ch.WeightedSampleError,), lambda: b.s[-1]))


@contract('C02', 'deleteFixedParams', [CH + 'WeightedSamples.deleteFixedParams'], symbolic=False)
def _(c):
    b = ws(c, c.dim('n', lo=2), c.dim('p'), like=c.flag('like'))
    X = b.X.copy()
    fix = [j for j in range(b.p) if c.flag('fix%d' % j)]
    for j in fix:
        X[:, j] = c.option('val%d' % j, [0.0, 1.5, -2e-5, 1e6])
    allfix = [j for j in range(b.p) if np.all(X[:, j] == X[0, j])]
    for j in range(b.p):
        if j not in allfix:
            c.assume(np.ptp(X[:, j]) > 1e-3)
    if c.flag('bydefault_end'):
        for j in range(b.p):
            if j not in allfix and b.n > 2:
                X[-1, j] = X[0, j]
                c.assume(np.ptp(X[:, j]) > 1e-3)
    if c.flag('small') and b.n > 1:
        # varies, but by little
        for j in range(b.p):
            if j not in allfix:
                X[:, j] = c.option('about%d' % j, [1.0, 1e-10, -3e8, 1e-30]) * (1 + c.option('by%d' % j, [3e-7, 1e-9, 0.01]) * X[:, j] / np.abs(X[:, j]).max())
                c.assume(np.ptp(X[:, j]) > 1e-10 * np.abs(X[:, j]).max())
    b.s.changeSamples(X.copy())
    fixed, values = b.s.deleteFixedParams()
    c.check('fixed', list(fixed) == allfix, '%s %s' % (fixed, allfix))
    for j, v in zip(allfix, values):
        c.check_eq('value', v, X[0, j])
    rest = [j for j in range(b.p) if j not in allfix]
    c.check_arr('samples', b.s.samples, (b.n, len(rest)), lambda i, j: X[i, rest[j]])
    c.check_arr('weights', b.s.weights, (b.n,), lambda i: b.w[i])
    c.check_eq('n', b.s.n, len(rest))


@contract('C02', 'histories', [CH + 'Chains.filter', CH + 'Chains.addDerived', CH + 'WeightedSamples.setSamples', CH + 'Chains.makeSingle',
                               'getdist.mcsamples:MCSamples.addDerived'], symbolic=False, runs=250,
          note='sequences of up to 8 operations; rows identified by a unique id carried in a column')
def _(c):
    mod = c.module('getdist.mcsamples')
    chm = c.module('getdist.chains')
    n = c.int('n', 4, 30)
    r = c.npr
    kind = c.option('kind', ['ws', 'chains', 'mc'])
    ids = np.arange(1, n + 1, dtype=float)
    X = np.column_stack([ids, ids * ids, np.full(n, 3.0)])
    w = c.array('w', (n,), gen='weight')
    c.assume(np.sum(w > 0) >= 2)
    L0 = -3 * ids + 1
    like = c.flag('like')
    if kind == 'ws':
        s = chm.WeightedSamples(samples=X.copy(), weights=w.copy(), loglikes=L0.copy() if like else None, min_weight_ratio=-1)
    elif kind == 'chains':
        s = chm.Chains(samples=X.copy(), weights=w.copy(), loglikes=L0.copy() if like else None, names=['id', 'sq', 'k'], min_weight_ratio=-1)
    else:
        s = mod.MCSamples(samples=X.copy(), weights=w.copy(), loglikes=L0.copy() if like else None, names=['id', 'sq', 'k'], ignore_rows=0,
                          settings={'min_weight_ratio': -1})
    cur = list(range(n))
    cols = [lambda i: i, lambda i: i * i, lambda i: 3.0]
    if kind == 'mc':
        cols = cols[:2]      # parameters that do not vary are removed on loading
    for k in range(c.int('ops', 1, 8)):
        op = c.option('op%d' % k, ['filter', 'index', 'zeros', 'ratio', 'burn', 'derived', 'fixed', 'burnrows'])
        if op == 'filter':
            t = c.array('t%d' % k, (len(cur),), kind='b')
            if not any(t[q] and w[i] > 0 for q, i in enumerate(cur)):
                continue
            s.filter(t)
            cur = [i for q, i in enumerate(cur) if t[q]]
        elif op == 'index':
            ix = sorted(c._in('ix%d' % k, lambda: c.rng.sample(range(len(cur)), max(1, len(cur) - 2))))
            if not any(w[cur[q]] > 0 for q in ix) or not ix or max(ix) >= len(cur):
                continue
            s.filter(np.array(ix))
            cur = [cur[q] for q in ix]
        elif op == 'zeros':
            s.deleteZeros()
            cur = [i for i in cur if w[i] > 0]
        elif op == 'ratio':
            mx = max(w[i] for i in cur)
            s.setMinWeightRatio(0.4)
            if min(w[i] for i in cur) < mx * 0.4:
                cur = [i for i in cur if w[i] > mx * 0.4]
        elif op in ('burn', 'burnrows'):
            m = int(round(len(cur) * 0.2)) if op == 'burn' else 2
            if len(cur) - m < 2 or not any(w[i] > 0 for i in cur[m:]):
                continue
            s.removeBurn(0.2 if op == 'burn' else 2)
            cur = cur[m:]
        elif op == 'derived' and kind != 'ws':
            v = s.samples[:, 0] * 2 + k
            s.addDerived(v, 'd%d' % k)
            cols.append(lambda i, k=k: 2 * i + k)
        elif op == 'fixed':
            if len(cur) < 3:
                continue
            s.deleteFixedParams()
            cols = [f for f in cols if len({f(i + 1.0) for i in cur}) > 1]
        else:
            continue
        m = len(cur)
        c.check_arr('%s.samples' % op, s.samples, (m, len(cols)), lambda q, j: cols[j](cur[q] + 1.0))
        c.check_arr('%s.weights' % op, s.weights, (m,), lambda q: w[cur[q]])
        if like:
            c.check_arr('%s.loglikes' % op, s.loglikes, (m,), lambda q: L0[cur[q]])
        else:
            c.check_is('%s.loglikes' % op, s.loglikes, None)
        c.check_eq('%s.numrows' % op, s.numrows, m)
        c.check_eq('%s.n' % op, s.n, len(cols))
        c.check_eq('%s.norm' % op, s.get_norm(), sum(w[i] for i in cur))
        if kind != 'ws':
            names = s.getParamNames().list()
            c.check('%s.names' % op, len(names) == len(cols))
            for nm in names:
                if nm.startswith('d'):
                    kk = int(nm[1:])
                    c.check_arr('%s.byname' % op, s[nm], (m,), lambda q: 2 * (cur[q] + 1.0) + kk)


@contract('C02', 'sample_dict', [CH + 'Chains.getParamSampleDict', CH + 'Chains.getParams', CH + 'Chains.setParams'], symbolic=False, runs=60)
def _(c):
    chm = c.module('getdist.chains')
    n, p = c.dim('n'), c.dim('p')
    names = [c.option('nm%d' % j, ['a%d', 'b.c%d', 'x_%d', 'b.d.e%d', 'b.d.f%d.g']) % j for j in range(p)]
    der = [c.flag('der%d' % j) for j in range(p)]
    X, w, L = c.array('X', (n, p)), c.array('w', (n,), gen='weight'), c.array('L', (n,))
    s = chm.Chains(samples=X.copy(), weights=w.copy(), loglikes=L.copy(), names=[a + ('*' if d else '') for a, d in zip(names, der)], min_weight_ratio=-1)
    i = c.int('i', 0, gen=lambda: c.rng.randrange(n))
    c.assume(i < n)
    want = c.flag('want')
    d = s.getParamSampleDict(i, want_derived=want)
    exp = {'weight': w[i], 'loglike': L[i]}
    exp.update({nm: X[i, j] for j, nm in enumerate(names) if want or not der[j]})
    c.check('dict', dict(d) == exp, '%s %s' % (d, exp))
    P = s.getParams()
    for j, nm in enumerate(names):
        o = P
        for q in nm.split('.'):
            o = getattr(o, q)
        c.check_arr('params', o if not hasattr(o, 'value') else o.value, (n,), lambda q: X[q, j])
