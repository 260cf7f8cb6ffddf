"""C11: convergence diagnostics follow their definitions"""
import math
import re
import numpy as np
from pyvc.api import contract, Skip
from contracts.common import Box, ws
from contracts.c09_kde import mc, bare

W = 'getdist.chains:WeightedSamples.'
C = 'getdist.chains:Chains.'
M = 'getdist.mcsamples:MCSamples.'
AUTO = ['autoConvolve returns the autocovariance sums (contract C10/auto_sums)']


def stub_auto(c):
    if c.mode != 'proof':
        return

    def auto(x, n=None, normalize=True):
        N = c.length(x)
        n = N if n is None else n
        if normalize is not True:
            raise AssertionError('unexpected use of the contract')
        c.check('lags', c.And(n >= 1, n <= N))
        return c.new((n,), lambda k: c.sum(N, lambda i: c.ite(i + k < N, c.at(x, i) * c.at(x, i + k), 0)) / (N - k))
    c.stub('getdist.chains', 'autoConvolve', auto)


def autocov(c, n, w, x, mean, k):
    """sum_i w_i w_(i+k) (x_i - m)(x_(i+k) - m) / (n - k)"""
    if c.concrete:
        d = np.asarray(w) * (np.asarray(x) - mean)
        return float(np.dot(d[:int(n) - int(k)], d[int(k):])) / (n - k)
    d = lambda i: c.at(w, i) * (c.at(x, i) - mean)
    return c.sum(n, lambda i: c.ite(i + k < n, d(i) * d(i + k), 0)) / (n - k)


@contract('C11', 'autocorrelation', [W + 'getAutocorrelation'], assumes=AUTO, bounded=False)
def _(c):
    """weighted autocorrelation for every sample set, lag, unit and normalisation"""
    stub_auto(c)
    n = c.dim('n', lo=2, hi=60)
    b = ws(c, n, c.dim('p'))
    j = c.int('j', 0, gen=lambda: c.rng.randrange(int(b.p)))
    c.assume(j < b.p)
    x = c.new((n,), lambda i: b.x(i, j)) if not c.concrete else b.X[:, j]
    if c.flag('vector'):
        arg = x
    else:
        arg = j
    m, v = b.mean(j), b.cov(j, j)
    if c.concrete:
        c.assume(v > 1e-8)
    else:
        c.assume(v > 0)
    kw = {}
    units, norm = c.flag('weight_units'), c.flag('normalized')
    if not units:
        kw['weight_units'] = False
    if not norm:
        kw['normalized'] = False
    if c.flag('all'):
        lags = n
    else:
        off = c.int('off', 0, gen=lambda: c.rng.randrange(int(n)))
        c.assume(off < n)
        lags = off + 1
        kw['maxOff'] = off
    r = b.s.getAutocorrelation(arg, **kw)
    sc = 0
    if c.concrete:
        sc = float(np.sum(b.w ** 2) * np.max(b.X ** 2)) * (1 / v if norm else 1) * (n / b.W if units else 1)

    def ref(k):
        t = autocov(c, n, b.w, x, m, k)
        if norm:
            t = t / v
        return t * n / b.W if units else t
    c.check_arr('definition', r, (lags,), ref, scale=sc)


@contract('C11', 'correlation_length', [W + 'getCorrelationLength'], runs=400)
def _(c):
    """corr_0 + 2 sum over the lags before the first at or below the threshold (all of them when none is)"""
    n = c.dim('n', lo=1, hi=25)
    corr = c.array('corr', (n,), gen=lambda r, d: np.concatenate([[1.0], 0.9 ** np.arange(1, d[0]) * r.uniform(0.3, 1.2, d[0] - 1)])[:d[0]])
    s = c.partial(c.module('getdist.chains').WeightedSamples)
    mc_ = c.real('min_corr', lo=0, hi=1, gen=lambda: c.rng.choice([0.05, 0.3, 0.6]))
    c.assume(mc_ > 0)
    c.assume(mc_ < 1)
    c.assume(c.at(corr, 0) > 0)
    N = s.getCorrelationLength(0, min_corr=mc_, corr=corr)
    thr = mc_ * c.at(corr, 0)
    if c.concrete:
        k = 1
        while k < n and corr[k] > thr:
            k += 1
        c.check_eq('length', N, corr[0] + 2 * math.fsum(corr[1:k]))
        return
    # some cut-off k: all lags before it above the threshold, the lag itself (if there is one) not
    if c.flag('never'):
        c.assume_all(n, lambda i: c.at(corr, i) > thr)
        k = n
    else:
        k = c.int('cut', 1)
        c.assume(k < n)
        c.assume(c.Not(c.at(corr, k) > thr))
        c.assume_all(k, lambda i: c.at(corr, i) > thr)
    c.check_eq('length', N, c.at(corr, 0) + 2 * c.sum(k - 1, lambda i: c.at(corr, i + 1)))


@contract('C11', 'correlation_length_default', [W + 'getCorrelationLength', W + 'getEffectiveSamples', W + 'getAutocorrelation'], symbolic=False, runs=200)
def _(c):
    """from samples: lags up to a tenth of the rows, weight or row units; effective number = total weight / length"""
    ch = c.module('getdist.chains')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n = c.option('n', [30, 57, 200, 700])
    rho = c.option('rho', [0, 0.5, 0.9, 0.995])
    x = np.zeros((n, 2))
    for i in range(n):
        x[i] = rho * x[i - 1] + r.randn(2)
    if c.flag('trend'):
        x[:, 1] += np.arange(n)
    w = c.option('weights', [np.ones(n), r.randint(1, 8, n).astype(float), r.rand(n) + .1])
    s = ch.WeightedSamples(samples=x, weights=w, min_weight_ratio=-1)
    for j in range(2):
        for units in (True, False):
            for thr in (None, 0.2):
                m = np.average(x[:, j], weights=w)
                v = np.average((x[:, j] - m) ** 2, weights=w)
                d = w * (x[:, j] - m)
                cor = [np.dot(d[:n - k], d[k:]) / (n - k) / v * (n / w.sum() if units else 1) for k in range(n // 10 + 1)]
                k = 1
                while k < len(cor) and cor[k] > (thr or 0.05) * cor[0]:
                    k += 1
                N = cor[0] + 2 * sum(cor[1:k])
                kw = {} if thr is None else {'min_corr': thr}
                c.check_eq('length', s.getCorrelationLength(j, weight_units=units, **kw), N, rtol=1e-6)
                c.check_eq('length_vector', s.getCorrelationLength(x[:, j], weight_units=units, **kw), N, rtol=1e-6)
                if units:
                    c.check_eq('effective', s.getEffectiveSamples(j, **kw), w.sum() / N, rtol=1e-6)


@contract('C11', 'uncorrelated', [W + 'getEffectiveSamplesGaussianKDE', W + 'getEffectiveSamplesGaussianKDE_2d'])
def _(c):
    """independent samples: (sum w)^2 / sum w^2"""
    n = c.dim('n')
    b = ws(c, n, c.dim('p', lo=2, small=(2,)))
    b.s.sampler = c.option('sampler', ['nested', 'uncorrelated'])
    e = b.W * b.W / c.sum(n, lambda i: b.wt(i) * b.wt(i))
    c.check_eq('one', b.s.getEffectiveSamplesGaussianKDE(0), e)
    c.check_eq('two', b.s.getEffectiveSamplesGaussianKDE_2d(0, 1), e)


@contract('C11', 'kde_samples', [W + 'getEffectiveSamplesGaussianKDE', W + 'getEffectiveSamplesGaussianKDE_2d'], symbolic=False, runs=120)
def _(c):
    """correlated samples: the kernel-weighted sums over lags (while above the threshold); every lag used when there are few"""
    ch = c.module('getdist.chains')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n = c.option('n', [12, 25, 60, 150, 190])
    rho = c.option('rho', [0, 0.6, 0.9, 0.97])
    x = np.zeros((n, 2))
    for i in range(n):
        x[i] = rho * x[i - 1] + r.randn(2)
    w = c.option('weights', [np.ones(n), r.randint(1, 6, n).astype(float)])
    s = ch.WeightedSamples(samples=x, weights=w, min_weight_ratio=-1)
    h = c.option('h', [None, 0.1, 0.5])
    maxoff = c.option('maxoff', [None, 3, 19])
    mn = c.option('min_corr', [0.05, 0.01])
    scale = c.option('scale', [None, 0.7])
    W2 = w.sum() ** 2

    def lens(j):
        m = np.average(x[:, j], weights=w)
        v = np.average((x[:, j] - m) ** 2, weights=w)
        d = w * (x[:, j] - m)
        cor = [np.dot(d[:n - k], d[k:]) / (n - k) / v for k in range(n // 10 + 1)]
        k = 1
        while k < len(cor) and cor[k] > 0.05 * cor[0]:
            k += 1
        return cor[0] + 2 * sum(cor[1:k])

    def lagsum(dist2, mo, sampled):
        unc, nav = 0.0, 0
        for k in range(n // 2, n // 2 + 5):
            nav += n - k
            unc += sum(math.exp(-dist2(i, i + k) / 4) * w[i] * w[i + k] for i in range(n - k))
        unc /= nav
        f = lambda k: sum(math.exp(-dist2(i, i + k) / 4) * w[i] * w[i + k] for i in range(n - k)) - (n - k) * unc
        c0 = float(np.dot(w, w))
        tot, terms = 0.0, []
        for k in range(1, mo + 1):
            t = f(k)
            if t < mn * c0:
                break
            terms.append(t)
        return c0, terms, mn * c0
    kw = dict(min_corr=mn)
    if maxoff:
        kw['maxoff'] = maxoff
    # one dimension
    sg = scale or math.sqrt(np.average((x[:, 0] - np.average(x[:, 0], weights=w)) ** 2, weights=w))
    ks = sg * (h or 0.2)
    mo = min(maxoff or int(lens(0) * 1.5) + 4, n // 10)
    c0, terms, thr = lagsum(lambda a, b: (x[a, 0] - x[b, 0]) ** 2 / ks ** 2, max(mo, 2), True)
    got = s.getEffectiveSamplesGaussianKDE(0, scale=scale, **dict(kw, **({} if h is None else {'h': h})))
    if mo < 20 and not any(abs(t - thr) < 1e-9 * c0 for t in terms):
        # the third lag is counted with half weight
        t = terms
        if len(t) <= 1:
            N = c0 + 2 * sum(t)
        elif len(t) == 2 and mo <= 2:
            N = c0 + 2 * sum(t)
        else:
            N = c0 + 2 * (sum(t[:2]) + (t[2] / 2 if len(t) > 2 else 0) + sum(t[3:]))
        c.check_eq('one', got, W2 / N, rtol=1e-6)
    # two dimensions
    cv = np.cov(x.T, aweights=w, bias=True)
    hi = np.linalg.inv(cv) / (h or 0.3) ** 2
    mo = min(maxoff or int(max(lens(0), lens(1)) * 1.5) + 4, n // 10)
    c0, terms, thr = lagsum(lambda a, b: float((x[a] - x[b]) @ hi @ (x[a] - x[b])), mo, False)
    got = s.getEffectiveSamplesGaussianKDE_2d(0, 1, **dict(kw, **({} if h is None else {'h': h})))
    c.check_eq('two', got, W2 / (c0 + 2 * sum(terms)), rtol=1e-6)


@contract('C11', 'gelman_rubin', [C + 'getGelmanRubinEigenvalues'], bounded=False, timeout=160,
          assumes=['numpy.linalg.eigh/eigvalsh return the eigen-decomposition of their (symmetric) argument', 'numbers of chains 2 and 3'],
          note='proof for 2 and 3 chains of any length and any number of parameters; concrete executions vary the number')
def _(c):
    """eigenvalues of the covariance of chain means in the basis where the mean chain covariance is the identity"""
    ch = c.module('getdist.chains')
    if c.concrete:
        r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
        m, p = c.int('chains', 2, 5), c.int('p', 1, 5)
        nd = c.option('derived', [0, 0, 1, 2])
        names = ['a%d' % i for i in range(p)] + ['d%d*' % i for i in range(nd)]
        cs = []
        for q in range(m):
            n = r.randint(10, 40)
            x = r.randn(n, p + nd).dot(r.randn(p + nd, p + nd)) + r.randn(p + nd) * c.option('spread', [0.01, 1.0])
            cs.append((x, r.rand(n) + 0.1 if q % 2 else r.randint(1, 5, n).astype(float)))
        s = mc(c, [x for x, w in cs], [w for x, w in cs], names=names)
        X, w = np.vstack([x for x, _ in cs]), np.concatenate([w for _, w in cs])
        npar = c.option('nparam', [None, 1, p + nd])
        k = npar or p
        mean = np.average(X, axis=0, weights=w)
        mc_ = sum(np.atleast_2d(np.cov(x.T, aweights=v, bias=True)) for x, v in cs)[:k, :k] / m
        df = [(np.average(x, axis=0, weights=v) - mean)[:k] for x, v in cs]
        bc = sum(np.outer(d, d) for d in df) / (m - 1)
        from scipy.linalg import eigh
        e = eigh(bc, mc_, eigvals_only=True)
        lst = None if c.flag('own') else [ch.WeightedSamples(samples=x, weights=v, min_weight_ratio=-1) for x, v in cs]
        for rep in range(2):
            got = s.getGelmanRubinEigenvalues(nparam=npar, chainlist=lst)
            c.check('eigenvalues', len(got) == k and np.allclose(np.sort(got), e, atol=1e-8 * max(1, e[-1])), lambda: '%s %s' % (got, e))
            c.check_eq('worst', s.getGelmanRubin(nparam=npar, chainlist=lst), e[-1], rtol=1e-6)
        return
    m = c.option('chains', [2, 3])
    p = c.dim('p')
    k = c.int('k', lo=1)
    c.assume(k <= p)
    bs = [ws(c, c.dim('n%d' % q), p, like=False, name='c%d' % q) for q in range(m)]
    s = c.partial(ch.Chains)
    mean = c.array('means', (p,))
    s.means = mean
    rec = {}
    w0, U, D = c.array('eigval', (k,)), c.array('eigvec', (k, k)), c.array('result', (k,))

    def eigh(a):
        rec['a'] = a
        return c.fresh_copy(w0), c.fresh_copy(U)

    def eigvalsh(a):
        rec['b'] = a
        return D
    c.library('linalg.eigh', eigh)
    c.library('linalg.eigvalsh', eigvalsh)
    c.assume_all(k, lambda i: c.at(w0, i) > 0)
    got = s.getGelmanRubinEigenvalues(nparam=k, chainlist=[b.s for b in bs])
    c.check_arr('mean_covariance', rec['a'], (k, k), lambda i, j: sum(b.cov(i, j) for b in bs) / m)
    between = lambda i, j: sum((b.mean(i) - c.at(mean, i)) * (b.mean(j) - c.at(mean, j)) for b in bs) / (m - 1)
    c.check_arr('orthonormalised', rec['b'], (k, k), lambda a, b_: c.sum(k, lambda j: c.sum(k, lambda i: c.at(U, i, a) / c.sqrt(c.at(w0, a)) * between(i, j)) * c.at(U, j, b_) / c.sqrt(c.at(w0, b_))))
    c.check_arr('result', got, (k,), lambda i: c.at(D, i))


@contract('C11', 'not_moved', [C + 'getGelmanRubinEigenvalues', M + 'getConvergeTests'], symbolic=False, runs=20)
def _(c):
    """a parameter that never moved: no eigenvalues, and the report says so"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    xs = [r.randn(60, 2) for _ in range(3)]
    for x in xs:
        x[:, 1] = 2.0
    s = mc(c, xs, None, names=['a', 'b'])
    c.check('none', s.getGelmanRubinEigenvalues(nparam=2, chainlist=[c.module('getdist.chains').WeightedSamples(samples=x) for x in xs]) is None)


def quant(x, w, f, upper=False):
    """value with tail weight f"""
    o = np.argsort(x, kind='mergesort')
    cs = np.cumsum(w[o])
    t = (1 - f if upper else f) * cs[-1]
    k = np.searchsorted(cs, t)
    return x[o][min(k, len(o) - 1)], abs(cs[max(0, k - 1)] - t) < 1e-9 * cs[-1] or abs(cs[min(k, len(o) - 1)] - t) < 1e-9 * cs[-1]


@contract('C11', 'report', [M + 'getConvergeTests', M + 'getFractionIndices', W + 'getAutocorrelation', 'getdist.types:ConvergeStats.loadFromFile', 'getdist.types:ConvergeStats.worstR'], symbolic=False, runs=60)
def _(c):
    """the numbers printed in the convergence report, and written to file, are those of the definitions"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    m, p = c.int('chains', 2, 4), c.int('p', 1, 3)
    cs = []
    kind = c.option('kind', ['unit', 'int', 'real'])
    for q in range(m):
        n = r.randint(30, 120)
        x = np.zeros((n, p))
        for i in range(n):
            x[i] = x[i - 1] * c.option('rho', [0.2, 0.9]) + r.randn(p)
        x = x * 10 ** r.uniform(-2, 2) + r.randn(p)
        w = {'unit': np.ones(n), 'int': r.randint(1, 4, n).astype(float), 'real': r.rand(n) + 0.2}[kind]
        cs.append((x, w))
    s = mc(c, [x.copy() for x, w in cs], [w.copy() for x, w in cs], names=['par%d' % i for i in range(p)], labels=['L_%d' % i for i in range(p)])
    s.makeSingle() if s.chains is not None else None
    X, w = np.vstack([x for x, _ in cs]), np.concatenate([w for _, w in cs])
    tot = w.sum()
    mean = np.average(X, axis=0, weights=w)
    var = np.average((X - mean) ** 2, axis=0, weights=w)
    conf = c.option('confidence', [0.95, 0.7])
    what = c.option('what', [('MeanVar', 'GelmanRubin', 'SplitTest', 'CorrLengths'), ('SplitTest',), ('CorrLengths', 'CorrSteps'), ('MeanVar', 'GelmanRubin')])
    import tempfile, os
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'x.converge')
        text = s.getConvergeTests(conf, writeDataToFile=True, what=what, filename=fn)
        c.check('file', open(fn, encoding='utf-8').read() == text)
        back = c.module('getdist.types').ConvergeStats(fn)
    lines = text.split('\n')

    def after(start):
        k = [i for i, l in enumerate(lines) if l.startswith(start)]
        c.check('section', len(k) == 1, start)
        return lines[k[0] + 1:]

    def close(a, b, digits):
        return abs(float(a) - b) <= 0.6 * 10 ** -digits + 1e-6 * abs(b)
    mo = min(len(v) // 10 for x, v in cs)
    maxN = 0
    Ns = []
    for j in range(p):
        cor = np.zeros(mo + 1)
        for x, v in cs:
            dm = v * (x[:, j] - np.average(x[:, j], weights=v))
            n = len(v)
            cor += np.array([np.dot(dm[:n - k], dm[k:]) / (n - k) * n for k in range(mo + 1)])
        cor /= tot * var[j]
        k = 1
        while k <= mo and cor[k] > 0.05 * cor[0]:
            k += 1
        Ns.append(cor[0] + 2 * sum(cor[1:k]))
    if 'CorrLengths' in what:
        rows = [l.split() for l in after('Parameter autocorrelation lengths')[2:2 + p]]
        mult = tot / len(w)
        for j in range(p):
            c.check('corr_name', rows[j][0] == 'par%d' % j)
            c.check('corr_length', abs(float(rows[j][1]) - Ns[j]) <= 0.01 * abs(Ns[j]) + 0.006, lambda: '%s %s' % (rows[j], Ns[j]))
            c.check('row_length', close(rows[j][2], Ns[j] / mult, 2))
            c.check('n_eff', abs(float(rows[j][3]) - tot / Ns[j]) <= 1.0001)
        c.check_eq('independent', s.indep_thin, max(Ns), rtol=1e-6)
    if 'MeanVar' in what:
        rows = [l.split() for l in after('param sqrt(var(chain mean)/mean(chain var))')[1:1 + p]]
        for j in range(p):
            bt = sum((np.average(x[:, j], weights=v) - mean[j]) ** 2 for x, v in cs) / (m - 1)
            inn = sum(np.dot(v, (x[:, j] - np.average(x[:, j], weights=v)) ** 2) for x, v in cs) / tot
            c.check('mean_var', rows[j][0] == 'par%d' % j and close(rows[j][1], math.sqrt(bt / inn), 4) and rows[j][2] == 'L_%d' % j)
    if 'GelmanRubin' in what:
        from scipy.linalg import eigh
        mc_ = sum(np.atleast_2d(np.cov(x.T, aweights=v, bias=True)) for x, v in cs) / m
        bc = sum(np.outer(d, d) for d in [np.average(x, axis=0, weights=v) - mean for x, v in cs]) / (m - 1)
        e = eigh(bc, mc_, eigvals_only=True)
        rows = [l.split() for l in after('var(mean)/mean(var) for eigenvalues')[:p]]
        for j in range(p):
            c.check('eigenvalue', int(rows[j][0]) == j + 1 and close(rows[j][1], e[j], 5))
        c.check_eq('worst', s.GelmanRubin, e[-1], rtol=1e-6)
        c.check('read_back', [float(x) for x in back.R_eigs] == [float(row[1]) for row in rows] and float(back.worstR()) == float(rows[-1][1]))
    if 'SplitTest' in what:
        rows = [l.split() for l in after('i.e. mean sample splitting')[1:1 + 2 * p]]
        ntest = s.max_split_tests - 1
        cw = np.cumsum(w)
        for j in range(p):
            for e, up in enumerate((True, False)):
                row = rows[2 * j + e]
                c.check('split_row', row[0] == 'par%d' % j and row[-1] == ('upper' if up else 'lower') and len(row) == ntest + 2)
                q0, tie = quant(X[:, j], w, (1 - conf) / 2, up)
                for t in range(ntest):
                    ns = t + 2
                    bad = tie
                    edges = [0]
                    for k in range(1, ns):
                        g = tot * k / ns
                        bad = bad or np.min(np.abs(cw - g)) < 1e-9 * tot
                        edges.append(int(np.searchsorted(cw, g)))
                    edges.append(len(w))
                    sq = 0
                    for a, b in zip(edges[:-1], edges[1:]):
                        q, tie2 = quant(X[a:b, j], w[a:b], (1 - conf) / 2, up)
                        bad = bad or tie2
                        sq += (q - q0) ** 2
                    if not bad:
                        c.check('split', close(row[1 + t], math.sqrt(sq / ns / var[j]), 4), lambda: '%s %s' % (row, math.sqrt(sq / ns / var[j])))
    if 'CorrSteps' in what and kind != 'real' and 'Parameter auto-correlations as function' in text:
        rest = after('Parameter auto-correlations as function')
        head = [int(t) for t in rest[1].split()]
        if head:
            th = head[0]
            c.check('read_back_steps', back.auto_correlation_steps == head and back.auto_correlation_pars == ['par%d' % j for j in range(p)]
                    and back.auto_correlations == [[float(q) for q in rest[2 + j].split()[1:-1]] for j in range(p)])
            c.check('steps', head == [th * (k + 1) for k in range(len(head))])
            for j in range(p):
                row = rest[2 + j].split()
                c.check('step_name', row[0] == 'par%d' % j and len(row) == len(head) + 2)
                for k in range(1, len(head) + 1):
                    t = 0
                    for x, v in cs:
                        ix = np.asarray(s.thin_indices(th, v))
                        dv = (x[:, j] - np.average(x[:, j], weights=v))[ix]
                        t += np.dot(dv[k:], dv[:-k]) / (len(ix) - k) / var[j] / m
                    c.check('step', close(row[k], t, 3), lambda: '%s %s' % (row, t))


def raftery_lewis(x, w, X, W, conf):
    """thinning for a Markov chain, for independent points, and burn in, of one chain (Raftery & Lewis); None if it fails"""
    def thinned(k):
        d = np.diff(np.concatenate([[0], np.cumsum(w.astype(int)) // k]))
        if k >= w.max() and d[0] == 0:
            d[0] = 1
        return np.repeat(np.arange(len(w)), d)

    def count(b, order):
        t = np.zeros((2,) * order)
        for i in range(len(b) - order + 1):
            t[tuple(b[i:i + order])] += 1
        return t

    def excess(g, limit):
        if abs(g - limit) < 1e-9 * limit:
            raise Skip
        return g >= limit
    tail = (1 - conf) / 2
    k, burn, worst = int(round(w.max())), 0, (0, True)
    for j in range(x.shape[1]):
        for up in (True, False):
            u, tie = quant(x[:, j], w, 1 - tail if up else tail)
            if tie:
                raise Skip
            while True:
                b = (x[thinned(k), j] < u).astype(int)
                n = len(b)
                if n < 8:
                    raise Skip
                t = count(b, 3)
                g = sum(2 * t[h, i, q] * math.log(t[h, i, q] * t[:, i].sum() / (t[h, i].sum() * t[:, i, q].sum()))
                        for h in (0, 1) for i in (0, 1) for q in (0, 1) if t[h, i, q])
                if not excess(g, 2 * math.log(n - 2)):
                    break
                k += 1
            m = t.sum(axis=0)
            if m[0, 1] == 0 or m[1, 0] == 0:
                return None
            al, be = m[0, 1] / m[0].sum(), m[1, 0] / m[1].sum()
            if abs(1 - al - be) < 1e-12:
                raise Skip
            steps = math.log((al + be) * 0.001 / max(al, be)) / math.log(abs(1 - al - be))
            if abs(steps - round(steps)) < 1e-9:
                raise Skip
            if int(steps + 1) * k > burn:
                burn, worst = int(steps + 1) * k, (j, up)
    markov = k
    u, tie = quant(X[:, worst[0]], W, tail, worst[1])
    if tie:
        raise Skip
    while True:
        b = (x[thinned(k), worst[0]] < u).astype(int)
        n = len(b)
        if n < 4:
            raise Skip
        t = count(b, 2)
        g = sum(2 * t[i, q] * math.log(t[i, q] * (n - 1) / (t[i].sum() * t[:, q].sum())) for i in (0, 1) for q in (0, 1) if t[i, q])
        if not excess(g, math.log(n - 1)):
            return markov, k, burn
        k += 1


@contract('C11', 'raftery_lewis', [M + 'getConvergeTests', W + 'thin_indices'], symbolic=False, runs=150)
def _(c):
    """the Raftery and Lewis estimates reported for each chain are those of the method"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    m, p = c.int('chains', 1, 3), c.int('p', 1, 2)
    cs = []
    kind = c.option('kind', ['unit', 'int', 'big'])
    rho = c.option('rho', [0.3, 0.7, 0.9])
    for q in range(m):
        n = r.randint(150, 400)
        x = np.zeros((n, p))
        for i in range(n):
            x[i] = x[i - 1] * rho + r.randn(p)
        w = {'unit': np.ones(n), 'int': r.randint(1, 4, n).astype(float), 'big': r.randint(1, 8, n).astype(float)}[kind]
        cs.append((x + r.randn(p), w))
    conf = c.option('confidence', [0.95, 0.7, 0.5])
    X, W_ = np.vstack([x for x, _ in cs]), np.concatenate([w for _, w in cs])
    want = [raftery_lewis(x, w, X, W_, conf) for x, w in cs]
    s = mc(c, [x.copy() for x, w in cs], [w.copy() for x, w in cs], names=['par%d' % i for i in range(p)])
    s.makeSingle() if s.chains is not None else None
    text = s.getConvergeTests(conf, what=('RafteryLewis',))
    lines = text.split('\n')
    k = [i for i, l in enumerate(lines) if l.startswith('chain  markov_thin')]
    c.check('section', len(k) == 1)
    rows = [l.split() for l in lines[k[0] + 1:k[0] + 1 + m]]
    for q in range(m):
        if want[q] is None:
            c.check('failed', rows[q][:2] == [str(q), 'Failed/not'], lambda: '%s' % rows[q])
        else:
            c.check('estimates', rows[q] == [str(t) for t in (q,) + want[q]], lambda: 'chain, Markov thinning, independent thinning, burn in: %s, expected %s' % (rows[q], want[q]))
    c.check('overall', s.RL_indep_thin == max(t[1] if t else 0 for t in want))
