"""C23: saved chains read back as the same chains"""
import copy
import logging
import os
import pickle
import tempfile
import numpy as np
from pyvc.api import contract, Skip
from contracts.c22_cache import summary, eq

M = 'getdist.mcsamples:MCSamples.'
W = 'getdist.chains:WeightedSamples.'
CH = 'getdist.chains:Chains.'


@contract('C23', 'columns', [W + 'saveAsText', W + 'setColData', W + 'setSamples', W + '_weightsChanged'],
          assumes=['C23: np.savetxt writes the array it is given, row by row, and loadNumpyTxt returns what was written (decimal rounding apart)'])
def _(c):
    """the columns written, read back, are the same weights, likelihoods and samples; a set without likelihoods has zeros"""
    ch = c.module('getdist.chains')
    n, p = c.dim('n', lo=1, small=(1, 3)), c.dim('p', lo=1, small=(1, 2))
    w = c.array('w', (n,), pred=lambda x: x >= 0, gen=lambda r, d: r.rand(*d) + 0.1)
    X = c.array('X', (n, p), gen=lambda r, d: r.randn(*d))
    has = c.flag('loglikes')
    L = c.array('L', (n,), gen=lambda r, d: r.randn(*d) * 30) if has else None
    s = c.partial(ch.WeightedSamples)
    s.precision, s.min_weight_ratio = '%.17e', -1
    s.setSamples(c.fresh_copy(X), c.fresh_copy(w), c.fresh_copy(L) if has else None)
    idx = c.option('index', [None, 0, 4])
    kept = {}

    def savetxt(f, a, fmt=None, **k):
        kept[f] = (a, fmt, k)
    np_ = ch.np
    if c.concrete:
        real, np_.savetxt = np_.savetxt, savetxt
    else:
        c.library('savetxt', savetxt)
    try:
        s.saveAsText(c.option('root', ['/x/ch', 'ch', '/x/ch.txt']), idx)
    finally:
        if c.concrete:
            np_.savetxt = real
    c.check('file', len(kept) == 1 and os.path.basename(list(kept)[0]) == ('ch.txt' if idx is None else 'ch_%d.txt' % (idx + 1)), list(kept))
    a, fmt, k = list(kept.values())[0]
    c.check('format', fmt == '%.17e' and not k)
    t = c.partial(ch.WeightedSamples)
    t.min_weight_ratio = -1
    t.setColData(a)
    c.check_arr('weights', t.weights, (n,), lambda i: c.at(w, i))
    c.check_arr('loglikes', t.loglikes, (n,), lambda i: c.at(L, i) if has else 0)
    c.check_arr('samples', t.samples, (n, p), lambda i, j: c.at(X, i, j))
    c.check_arr('own samples', s.samples, (n, p), lambda i, j: c.at(X, i, j))


NAMES = ['a', 'omegabh2', 'H0*', 'z_1', 'D(2)', 'x']
LABELS = [r'\Omega_b h^2', '', 'A', r'\frac{a}{b}', 'D_2 x', 'H_0 [km/s]', None]


def draw(c, chains):
    m = c.module('getdist.mcsamples')
    c.module('getdist.chains').print_load_details = False
    logging.disable(logging.CRITICAL)
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    p = c.int('p', 1, 5)
    names = list(c._in('names', lambda: tuple(c.rng.sample(NAMES, p))))
    # derived parameters last or anywhere
    labels = [c.option('label%d' % i, LABELS) for i in range(p)]
    labels = [q if q is not None else n.replace('*', '') for q, n in zip(labels, names)]
    k = c.int('nchain', 1, 3) if chains else 1
    X, wt, L = [], [], []
    for i in range(k):
        n = c.int('n%d' % i, 12, 30)
        scale = 10.0 ** r.randint(-8, 8, p)
        X.append(r.randn(n, p) * scale + r.choice([0, 1]) * scale * 20)
        wt.append(c.option('w%d' % i, [r.randint(1, 9, n) * 1.0, r.rand(n) + 1e-3, np.ones(n)]))
        L.append(r.rand(n) * 100 + 2000)
    has = c.flag('loglikes')
    kw = {}
    if c.flag('label'):
        kw['label'] = c.option('slabel', ['A label', r'$\Lambda$CDM = x', '#1'])
    samp = c.option('sampler', [None, 'nested', 'uncorrelated', 'mcmc'])
    if samp:
        kw['sampler'] = samp
    rng = {}
    for q in names:
        q = q.replace('*', '')
        lo, hi = c.option('range_' + q, [(None, None), (None, 1e12), (-1e12, None), (-1e12, 1e12), (-2e11, 1.25e11)])
        if lo is not None or hi is not None:
            rng[q] = (lo, hi)
    burn = c.option('ignore_rows', [0, 0, 0.3, 2]) if samp != 'nested' else 0
    one = not chains or k == 1 and c.flag('array')
    s = m.MCSamples(samples=X[0] if one else X, weights=wt[0] if one else wt, loglikes=(L[0] if one else L) if has else None, names=names, labels=labels, ranges=rng or None,
                    ignore_rows=burn, **kw)
    return s, burn, has, rng


def same(c, got, want, has, rng, rtol=1e-8):
    c.check('names', got.paramNames.list() == want.paramNames.list(), lambda: '%s want %s' % (got.paramNames.list(), want.paramNames.list()))
    c.check('labels', got.paramNames.labels() == want.paramNames.labels(), lambda: '%s want %s' % (got.paramNames.labels(), want.paramNames.labels()))
    c.check('derived', [q.isDerived for q in got.paramNames.names] == [q.isDerived for q in want.paramNames.names])
    c.check('shape', got.samples.shape == want.samples.shape, lambda: '%s want %s' % (got.samples.shape, want.samples.shape))
    c.check('weights', np.allclose(got.weights, want.weights, rtol=rtol, atol=0))
    c.check('samples', np.allclose(got.samples, want.samples, rtol=rtol, atol=0))
    if want.loglikes is None and got.loglikes is None and rtol == 0:
        pass
    else:
        c.check('loglikes', np.allclose(got.loglikes, want.loglikes if has else 0, rtol=rtol, atol=0))
    for q in want.paramNames.list():
        lo, hi = rng.get(q, (None, None))
        c.check('range', got.ranges.getLower(q) == lo and got.ranges.getUpper(q) == hi, lambda: '%s %s %s' % (q, got.ranges.getLower(q), got.ranges.getUpper(q)))
    c.check('label', got.label == want.label, lambda: '%r want %r' % (got.label, want.label))
    c.check('sampler', got.sampler == want.sampler, lambda: '%r want %r' % (got.sampler, want.sampler))
    c.check('means', np.all(np.abs(got.getMeans() - want.getMeans()) <= 1e-7 * np.abs(want.samples).max(axis=0)))


@contract('C23', 'text', [M + 'saveChainsAsText', M + 'saveTextMetadata', CH + 'saveAsText', CH + 'saveTextMetadata', W + 'saveAsText', 'getdist.paramnames:ParamList.saveAsText',
                          'getdist.parampriors:ParamBounds.saveToFile', 'getdist.mcsamples:loadMCSamples', M + '__init__', CH + 'loadChains', W + '__init__', 'getdist.chains:loadNumpyTxt',
                          M + 'readChains'], symbolic=False, runs=200)
def _(c):
    """samples saved as text, as one file or chain by chain, are loaded as they were"""
    m, getdist = c.module('getdist.mcsamples'), c.module('getdist')
    s, burn, has, rng = draw(c, True)
    how = c.option('how', ['whole', 'whole.txt', 'chains', 'index', 'twice'])
    was = copy.deepcopy(s)
    with tempfile.TemporaryDirectory() as d:
        root = os.path.join(d, 'one', 'ch')
        dirs = c.flag('make_dirs')
        if not dirs:
            os.makedirs(os.path.dirname(root))
        if how == 'whole':
            s.saveAsText(root, make_dirs=dirs)
        elif how == 'whole.txt':
            s.saveAsText(root + '.txt', make_dirs=dirs)
        elif how == 'twice':
            s.saveAsText(root, make_dirs=dirs)
            s.saveAsText(root, make_dirs=True)
        elif how == 'chains':
            if s.chain_offsets is None:
                raise Skip
            s.saveChainsAsText(root, make_dirs=dirs, properties=c.option('properties', [None, {'burn_removed': True}]))
        else:
            parts = s.getSeparateChains() if s.chain_offsets is not None else [s]
            for i, q in enumerate(parts):
                if i:
                    q.saveAsText(root, i)
                else:
                    # the set itself also writes names, ranges and properties
                    t = copy.deepcopy(s)
                    t.filter(np.arange(len(q.weights)))
                    t.saveAsText(root, 0, make_dirs=dirs)
        old, getdist.cache_dir = getdist.cache_dir, None
        try:
            # burn-in already removed is not removed again
            got = m.loadMCSamples(root, no_cache=True, settings=None if burn else {'ignore_rows': 0})
        finally:
            getdist.cache_dir = old
        if how in ('chains', 'index') and s.chain_offsets is not None:
            sep, sep0 = got.getSeparateChains(), was.getSeparateChains()
            c.check('chain count', len(sep) == len(sep0))
            for x, y in zip(sep, sep0):
                c.check('chain', x.samples.shape == y.samples.shape and np.allclose(x.samples, y.samples, rtol=1e-8, atol=0) and np.allclose(x.weights, y.weights, rtol=1e-8), lambda: '%s %s: %s %s' % (how, x.samples.shape, x.samples[:3], y.samples[:3]))
        # read in full again, from the folder itself and with the class
        files = sorted(f for f in os.listdir(os.path.dirname(root)) if f.endswith('.txt'))
        c.check('files', files == (['ch.txt'] if how in ('whole', 'whole.txt', 'twice') else ['ch_%d.txt' % (i + 1) for i in range(len(files))]), files)
        with open(root + '.paramnames') as f:
            lines = f.read().split('\n')
        c.check('names file', [q.split()[0] for q in lines if q.strip()] == [q.name + ('*' if q.isDerived else '') for q in was.paramNames.names])
    same(c, got, was, has, rng)
    for k in ('samples', 'weights'):
        c.check('saving changes nothing', np.array_equal(getattr(s, k), getattr(was, k)))


@contract('C23', 'pickle', [CH + 'savePickle'], symbolic=False, runs=60)
def _(c):
    """samples saved as a pickle are loaded as they were, with everything computed from them"""
    s, burn, has, rng = draw(c, True)
    if c.flag('used'):
        s.getMargeStats()
        s.get1DDensity(0)
    if c.flag('changed'):
        s.reweightAddingLogLikes(np.linspace(0, 2, s.numrows))
    with tempfile.TemporaryDirectory() as d:
        s.savePickle(os.path.join(d, 'x'))
        with open(os.path.join(d, 'x'), 'rb') as f:
            t = pickle.load(f)
    a, b = summary(t, True), summary(s, True)
    for k in b:
        c.check('same ' + k.split()[0], eq(a[k], b[k]), lambda: '%s %r want %r' % (k, a[k], b[k]))
    same(c, t, s, has, rng, rtol=0)
