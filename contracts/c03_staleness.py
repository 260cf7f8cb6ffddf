"""C03: derived statistics are never stale.  Every cache is filled, the samples are changed through the API, and every
query must then equal its definition for the current samples."""
import logging
import re
import numpy as np
from pyvc.api import contract
from contracts.common import Box, ws, mask
from contracts.c01_weighted_stats import posdiag, covToCorr_contract, cov_contract

CH = 'getdist.chains:'
MC = 'getdist.mcsamples:'
WS = CH + 'WeightedSamples.'
QUERIES = [WS + q for q in ('getMeans', 'getVars', 'getCov', 'setDiffs', 'mean_diff', 'get_norm', '_weightsChanged', 'setSamples')]


def fill(c, s, corr=True):
    s.getMeans()
    s.getVars()
    s.getCov()
    if corr:
        s.getCorrelationMatrix()
    s.setDiffs()
    s.get_norm()


def fresh(c, s, n, p, x, wt, L, diffs=True):
    """every query of s equals its definition for rows x(i,j), weights wt(i), i<n"""
    W = c.sum(n, wt)
    mean = lambda j: c.sum(n, lambda i: wt(i) * x(i, j)) / W
    cov = lambda j, k: c.sum(n, lambda i: wt(i) * (x(i, j) - mean(j)) * (x(i, k) - mean(k))) / W
    j = c.int('q', 0, gen=lambda: c.rng.randrange(int(p)))
    k = c.int('q2', 0, gen=lambda: c.rng.randrange(int(p)))
    c.assume(c.And(j < p, k < p))
    c.check_eq('norm', s.get_norm(), W)
    if diffs:
        c.check_arr('mean_diff', s.mean_diff(j), (n,), lambda i: x(i, j) - mean(j))
    c.check_eq('var', s.var(j), cov(j, j))
    c.check_eq('mean', s.getMeans()[j], mean(j))
    c.check_eq('vars', s.getVars()[j], cov(j, j))
    c.check_eq('sddev', s.sddev[j], c.sqrt(cov(j, j)))
    c.check_eq('cov', s.getCov()[j, k], cov(j, k))
    if L is None:
        c.check_is('mean_loglike', s.mean_loglike, None)
    else:
        c.check_eq('mean_loglike', s.mean_loglike, c.sum(n, lambda i: wt(i) * L(i)) / W)
    return cov


def now(c, s):
    """the weights held after an update (their values are property C05)"""
    w = c.fresh_copy(s.weights)
    return lambda i: c.at(w, i)


@contract('C03', 'after_reweight', QUERIES + [WS + 'reweightAddingLogLikes'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    fill(c, b.s, corr=False)
    A = c.array('A', (b.n,))
    b.s.reweightAddingLogLikes(c.fresh_copy(A))
    nw = now(c, b.s)
    c.assume(c.sum(b.n, nw) > 0)
    fresh(c, b.s, b.n, b.p, b.x, nw, None if b.L is None else (lambda i: c.at(b.L, i) + c.at(A, i)))


@contract('C03', 'after_cool', QUERIES + [WS + 'cool'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    fill(c, b.s, corr=False)
    T = c.real('T', pos=True)
    b.s.cool(T)
    nw = now(c, b.s)
    c.assume(c.sum(b.n, nw) > (1e-200 if c.concrete else 0))
    fresh(c, b.s, b.n, b.p, b.x, nw, lambda i: c.at(b.L, i) * T)


@contract('C03', 'after_changeSamples', QUERIES + [WS + 'changeSamples'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    fill(c, b.s, corr=False)
    p2 = c.dim('p2')
    Y = c.array('Y', (b.n, p2))
    b.s.changeSamples(c.fresh_copy(Y))
    fresh(c, b.s, b.n, p2, lambda i, j: c.at(Y, i, j), b.wt, None if b.L is None else (lambda i: c.at(b.L, i)))


@contract('C03', 'after_removeBurn', QUERIES + [WS + 'removeBurn'])
def _(c):
    b = ws(c, c.dim('n', lo=2), c.dim('p'), like=c.flag('like'), positive=True)
    fill(c, b.s, corr=False)
    m = c.int('m', 1, gen=lambda: c.rng.randint(1, max(1, int(b.n) - 1)))
    c.assume(m < b.n)
    b.s.removeBurn(m)
    wt = lambda i: b.wt(i + m)
    c.assume(c.sum(b.n - m, wt) > 0)
    fresh(c, b.s, b.n - m, b.p, lambda i, j: b.x(i + m, j), wt, None if b.L is None else (lambda i: c.at(b.L, i + m)))


@contract('C03', 'after_filter', QUERIES + [WS + 'filter'])
def _(c):
    b = mask(c, ws(c, c.dim('n'), c.dim('p'), like=c.flag('like')))
    fill(c, b.s, corr=False)
    b.s.filter(b.B)
    j = c.int('q', 0, gen=lambda: c.rng.randrange(int(b.p)))
    k = c.int('q2', 0, gen=lambda: c.rng.randrange(int(b.p)))
    c.assume(c.And(j < b.p, k < b.p))
    c.check_eq('norm', b.s.get_norm(), b.Wb)
    c.check_eq('var', b.s.var(j), b.bcov(j, j))
    c.check_eq('mean', b.s.getMeans()[j], b.bmean(j))
    c.check_eq('vars', b.s.getVars()[j], b.bcov(j, j))
    c.check_eq('sddev', b.s.sddev[j], c.sqrt(b.bcov(j, j)))
    c.check_eq('cov', b.s.getCov()[j, k], b.bcov(j, k))
    if b.L is not None:
        c.check_eq('mean_loglike', b.s.mean_loglike, b.bmean_f(lambda i: c.at(b.L, i)))


@contract('C03', 'after_setSamples', QUERIES)
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    fill(c, b.s, corr=False)
    m, p2 = c.dim('m'), c.dim('p2')
    Y, v = c.array('Y', (m, p2)), c.array('v', (m,), gen='weight', pred=lambda x: x >= 0)
    c.assume(c.sum(m, lambda i: c.at(v, i)) > 0)
    b.s.setSamples(c.fresh_copy(Y), c.fresh_copy(v))
    fresh(c, b.s, m, p2, lambda i, j: c.at(Y, i, j), lambda i: c.at(v, i), None)


@contract('C03', 'correlation_after_change', [WS + 'getCorrelationMatrix', WS + '_weightsChanged', WS + 'corr'], bounded=False)
def _(c):
    b = ws(c, c.dim('n', lo=2), c.dim('p', small=(2,)))
    cur = [b]
    posdiag(c, b)
    c.stub('getdist.chains', 'covToCorr', lambda cov, copy=True: covToCorr_contract(c, cov, copy))
    c.stub('getdist.chains', 'cov', lambda self, pars=None, where=None: cov_contract(c, cur[0], pars, where), owner='WeightedSamples')
    s = b.s
    s.getCorrelationMatrix()
    s.getCov()
    nb = Box()
    nb.n, nb.p = b.n, b.p
    k = c.option('op', ['change', 'reweight'])
    if k == 'change':
        Y = c.array('Y', (b.n, b.p))
        s.changeSamples(c.fresh_copy(Y))
        nb.x, nb.wt = (lambda i, j: c.at(Y, i, j)), b.wt
    else:
        A = c.array('A', (b.n,))
        s.reweightAddingLogLikes(c.fresh_copy(A))
        nb.x, nb.wt = b.x, now(c, s)
    nb.W = c.sum(nb.n, nb.wt)
    c.assume(nb.W > 0)
    nb.mean = lambda j: c.sum(nb.n, lambda i: nb.wt(i) * nb.x(i, j)) / nb.W
    nb.cov = lambda j, k: c.sum(nb.n, lambda i: nb.wt(i) * (nb.x(i, j) - nb.mean(j)) * (nb.x(i, k) - nb.mean(k))) / nb.W
    posdiag(c, nb)
    cur[0] = nb
    f = lambda j, k: nb.cov(j, k) / (c.sqrt(nb.cov(j, j)) * c.sqrt(nb.cov(k, k)))
    c.check_arr('getCorrelationMatrix', s.getCorrelationMatrix(), (b.p, b.p), f, rtol=1e-6)
    c.check_arr('corr', s.corr(), (b.p, b.p), f, rtol=1e-6)


@contract('C03', 'chain_lookup_after_change', [CH + 'Chains._makeParamvec', CH + 'Chains.updateBaseStatistics', CH + 'Chains.addDerived',
                                              CH + 'Chains._getParamIndices'])
def _(c):
    chm = c.module('getdist.chains')
    n = c.dim('n', lo=2)
    X, w = c.array('X', (n, 2)), c.array('w', (n,), gen='weight', pred=lambda x: x > 0)
    V = c.array('V', (n,))
    s = chm.Chains(samples=c.fresh_copy(X), weights=c.fresh_copy(w), names=['a', 'b'], min_weight_ratio=-1)
    c.check_arr('a', s['a'], (n,), lambda i: c.at(X, i, 0))
    s.getVars()
    s.addDerived(c.fresh_copy(V), 'd')
    c.check_arr('d', s['d'], (n,), lambda i: c.at(V, i))
    c.check_arr('b', s['b'], (n,), lambda i: c.at(X, i, 1))
    W = c.sum(n, lambda i: c.at(w, i))
    mean = lambda j: c.sum(n, lambda i: c.at(w, i) * (c.at(V, i) if int(j) == 2 else c.at(X, i, int(j)))) / W
    c.check_eq('mean_d', s.mean('d'), mean(2))
    c.check_arr('means', s.getMeans(), (3,), mean)


# ------------------------------------------------------------------------------------------------ MCSamples
NAMES = ['a', 'b', 'c']


def mk(c, X, w, L, names, ranges, settings=None):
    logging.disable(logging.CRITICAL)
    c.module('getdist.chains').print_load_details = False
    M = c.module('getdist.mcsamples').MCSamples
    st = {'min_weight_ratio': -1, 'fine_bins': 256, 'fine_bins_2D': 64}
    st.update(settings or {})
    return M(samples=X.copy(), weights=w.copy(), loglikes=None if L is None else L.copy(), names=[n + '*' if n[0] == 'd' else n for n in names],
             labels=['x' if n[0] == 'd' else n for n in names], ranges=dict(ranges), ignore_rows=0, settings=st)


def same(c, tag, a, b, rtol=1e-6):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    c.check(tag + '.shape', a.shape == b.shape, '%s %s' % (a.shape, b.shape))
    ok = np.allclose(a, b, rtol=rtol, atol=max(1e-8, rtol * rtol) * (1 + np.max(np.abs(b)) if b.size else 1), equal_nan=True)
    c.check(tag, ok, lambda: 'got %r, a fresh object gives %r' % (a.ravel()[:6].tolist(), b.ravel()[:6].tolist()))


NUM = re.compile(r'[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?')


def same_text(c, tag, a, b, tol):
    c.check(tag + '.words', NUM.sub('#', a) == NUM.sub('#', b), '%r %r' % (a, b))
    for x, y in zip(NUM.findall(a), NUM.findall(b)):
        c.check(tag, abs(float(x) - float(y)) <= 1e-3 * abs(float(y)) + tol, lambda: 'got %s, a fresh object gives %s' % (a, b))


def query_all(c, m, g, which):
    names = g.paramNames.list()
    c.check('names', m.paramNames.list() == names)
    for q in which:
        if q == 'means':
            same(c, 'means', m.getMeans(), g.getMeans())
        elif q == 'cov':
            same(c, 'cov', m.getCov(), g.getCov())
        elif q == 'corr':
            same(c, 'corr', m.getCorrelationMatrix(), g.getCorrelationMatrix())
        elif q == 'vars':
            same(c, 'vars', m.getVars(), g.getVars())
            same(c, 'sddev', m.sddev, g.sddev)
        elif q == 'density':
            for nm in names:
                A, B = m.get1DDensity(nm), g.get1DDensity(nm)
                same(c, 'density1D.x', A.x, B.x)
                same(c, 'density1D.P', A.P, B.P, 2e-3)
        elif q == 'density2D':
            A, B = m.get2DDensity(names[0], names[1]), g.get2DDensity(names[0], names[1])
            same(c, 'density2D.x', A.x, B.x)
            same(c, 'density2D.P', A.P, B.P, 2e-3)
        elif q == 'marge':
            A, B = m.getMargeStats(), g.getMargeStats()
            for nm in names:
                p, r = A.parWithName(nm), B.parWithName(nm)
                same(c, 'marge.mean', p.mean, r.mean)
                same(c, 'marge.err', p.err, r.err)
                same(c, 'marge.limits', [(l.lower, l.upper) for l in p.limits], [(l.lower, l.upper) for l in r.limits], 1e-3)
                c.check('marge.tags', [(l.twotail, l.onetail_upper, l.onetail_lower) for l in p.limits] ==
                        [(l.twotail, l.onetail_upper, l.onetail_lower) for l in r.limits])
        elif q == 'like':
            A, B = m.getLikeStats(), g.getLikeStats()
            c.check('like.none', (A is None) == (B is None))
            if B is not None:
                for f in ('logLike_sample', 'meanLogLike', 'logMeanLike', 'complexity', 'ND_cont1', 'ND_cont2'):
                    same(c, 'like.' + f, getattr(A, f), getattr(B, f))
                for nm in names:
                    p, r = A.parWithName(nm), B.parWithName(nm)
                    same(c, 'like.ND', [p.ND_limit_bot, p.ND_limit_top], [r.ND_limit_bot, r.ND_limit_top])
                    same(c, 'like.bestfit', p.bestfit_sample, r.bestfit_sample)
        elif q == 'bounds':
            A, B = m.getBounds(), g.getBounds()
            for nm in names:
                c.check('lower', m.getLower(nm) == g.getLower(nm))
                c.check('upper', m.getUpper(nm) == g.getUpper(nm))
        elif q == 'conf':
            for nm in names:
                same(c, 'conf', m.confidence(nm, np.array([0.1, 0.5, 0.9])), g.confidence(nm, np.array([0.1, 0.5, 0.9])))
                same(c, 'mean', m.mean(nm), g.mean(nm))
                same(c, 'std', m.std(nm), g.std(nm))
        elif q == 'latex':
            for nm in names:
                same_text(c, 'latex', m.getInlineLatex(nm), g.getInlineLatex(nm), 0.02)
        elif q == 'summary':
            same_text(c, 'summary', m.getNumSampleSummaryText(), g.getNumSampleSummaryText(), 1)
            ev = lambda txt: [float(x) for x in re.findall(r'PC\d \(e-value: ([-+.\deE]+)\)', txt)]
            same(c, 'pca', ev(m.PCA(names[:2])), ev(g.PCA(names[:2])), 1e-3)
            same(c, 'covmat', m.getCovMat().matrix, g.getCovMat().matrix)
        elif q == 'index':
            for j, nm in enumerate(names):
                same(c, 'byname', m[nm], m.samples[:, j])
                c.check('parAndNumber', m._parAndNumber(nm)[0] == j)
            P = m.getParams()
            for j, nm in enumerate(names):
                same(c, 'params', getattr(P, nm), m.samples[:, j])


QS = ['means', 'cov', 'corr', 'vars', 'density', 'density2D', 'marge', 'like', 'bounds', 'conf', 'latex', 'summary', 'index']


@contract('C03', 'mcsamples_histories', [MC + 'MCSamples.updateBaseStatistics', MC + 'MCSamples.get1DDensity', MC + 'MCSamples.get2DDensity',
                                         MC + 'MCSamples.getMargeStats', MC + 'MCSamples.getLikeStats', MC + 'MCSamples.setRanges',
                                         MC + 'MCSamples.updateSettings', CH + 'Chains.weighted_thin', CH + 'WeightedSamples.thin'],
          symbolic=False, runs=60, note='histories of up to 4 updates with queries in between, compared with a fresh object')
def _(c):
    n = 240
    r = c.npr
    X = c.array('X', (n, 3), gen=lambda r, d: r.normal(0, 1, d).dot(np.array([[1, .4, 0], [0, 1, .2], [0, 0, 1]])))
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, 4, d).astype(float))
    like = c.flag('like')
    L = c.array('L', (n,), gen=lambda r, d: (X ** 2).sum(1) / 2 + r.uniform(0, .1, d)) if like else None
    ranges = c.option('ranges', [{}, {'a': (-10, None)}, {'a': (float(X[:, 0].min()) - .01, None), 'b': (None, float(X[:, 1].max()) + .01)}])
    m = mk(c, X, w, L, NAMES, ranges)
    ranges = dict(ranges)
    settings = {}
    names = list(NAMES)
    for t in range(c.int('ops', 1, 4)):
        pre = [q for q in QS if c.flag('pre%d%s' % (t, q))]
        g = mk(c, X, w, L, names, ranges, settings)
        query_all(c, m, g, pre)
        op = c.option('op%d' % t, ['filter', 'reweight', 'cool', 'burn', 'derived', 'thin', 'wthin', 'ranges', 'settings', 'change', 'index', 'set'])
        if op == 'filter':
            f = X[:, 0] > np.quantile(X[:, 0], 0.2)
            m.filter(f)
            X, w, L = X[f], w[f], (L[f] if like else None)
        elif op == 'index':
            f = np.arange(0, len(X), 2) if len(X) > 150 else np.arange(1, len(X))
            m.filter(f)
            X, w, L = X[f], w[f], (L[f] if like else None)
        elif op == 'reweight':
            a = 0.5 * (X[:, 1] - 0.5) ** 2
            m.reweightAddingLogLikes(a)
            w = w * np.exp(-(a - a.min()))
            w = w * (m.weights[0] / w[0])
            L = L + a if like else None
        elif op == 'cool' and like:
            m.cool(1.3)
            w = w * np.exp(-(L - L.min()) * 0.3)
            w = w * (m.weights[0] / w[0])      # the common factor is free
            L = L * 1.3
        elif op == 'burn':
            m.removeBurn(0.1)
            k = int(round(len(X) * 0.1))
            X, w, L = X[k:], w[k:], (L[k:] if like else None)
        elif op == 'derived':
            nm = 'd%d' % t
            v = X[:, 0] ** 2 + X[:, 1]
            m.addDerived(v, nm, label='x', range=(-100, 100))
            X = np.column_stack([X, v])
            names.append(nm)
            ranges[nm] = (-100, 100)
        elif op == 'thin' and np.all(w == w.astype(int)) and w.sum() > 150:
            ix = m.thin_indices(2)
            m.thin(2)
            X, L = X[ix], (L[ix] if like else None)
            w = np.ones(len(X))
        elif op == 'wthin' and np.all(w == w.astype(int)) and w.sum() > 150:
            ix, cn = m.thin_indices_and_weights(2, w)
            m.weighted_thin(2)
            X, L, w = X[ix], (L[ix] if like else None), cn.astype(float)
        elif op == 'ranges':
            rr = {'c': (float(X[:, 2].min()) - 0.01, 20.)}
            m.setRanges(rr)
            ranges.update(rr)
        elif op == 'settings':
            st = c.option('st%d' % t, [{'contours': '0.5 0.9'}, {'smooth_scale_1D': 0.3}, {'range_confidence': 0.01}, {'num_bins': 60},
                                       {'credible_interval_threshold': 0.0001}])
            m.updateSettings(st)
            settings.update(st)
        elif op == 'change':
            X = X * 2 + 1
            ranges = {k: v for k, v in ranges.items()}
            lo = X.min(0)
            m.changeSamples(X.copy())
            m.setRanges({nm: (float(lo[j]) - 1, None) for j, nm in enumerate(names)})
            for j, nm in enumerate(names):
                ranges[nm] = (float(lo[j]) - 1, None)
            for nm in list(ranges):
                pass
        elif op == 'set':
            sel = np.arange(len(X))[::-1][: max(100, len(X) - 20)]
            X, w, L = X[sel], w[sel], (L[sel] if like else None)
            m.setSamples(X.copy(), w.copy(), L.copy() if like else None)
        # upper limits set earlier survive a setRange with None, so compare against the ranges now held
        rg = {nm: (m.ranges.getLower(nm), m.ranges.getUpper(nm)) for nm in names}
        ranges = {k: v for k, v in rg.items() if v != (None, None)}
        c.assume(all(np.ptp(X[:, j]) > 0.1 for j in range(X.shape[1])) and len(X) > 40)
        for j, nm in enumerate(names):
            lo, hi = rg[nm]
            c.assume((lo is None or lo <= X[:, j].min()) and (hi is None or hi >= X[:, j].max()))
        g = mk(c, X, w, L, names, ranges, settings)
        query_all(c, m, g, [q for q in QS if c.flag('post%d%s' % (t, q))])
    query_all(c, m, mk(c, X, w, L, names, ranges, settings), QS)
