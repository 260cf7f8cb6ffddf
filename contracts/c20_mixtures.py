"""C20: Gaussian mixtures are consistent probability models"""
import os
import tempfile
import numpy as np
from pyvc.api import contract, Skip

G = 'getdist.gaussian_mixtures:'
K = G + 'MixtureND.'


class Box:
    pass


def spd(r, d, spread=1.0):
    A = r.normal(0, 1, (d, d))
    s = 10 ** r.uniform(-spread, spread, d)
    return (A.dot(A.T) / d + 0.3 * np.eye(d)) * np.outer(s, s)


def comps(c, K, d, cls='MixtureND'):
    """a mixture of K components in d dimensions with arbitrary (normalised) weights, means, inverse covariances and norms"""
    m = c.module('getdist.gaussian_mixtures')
    b = Box()
    b.mean = [c.array('mean%d' % k, (d,)) for k in range(K)]
    b.icov = [c.array('icov%d' % k, (d, d), gen=lambda r, dd: spd(r, dd[0])) for k in range(K)]
    b.cov = [c.array('cov%d' % k, (d, d), gen=lambda r, dd: spd(r, dd[0])) for k in range(K)]
    b.w = [c.real('w%d' % k, pos=True) for k in range(K)]
    b.norm = [c.real('norm%d' % k, pos=True) for k in range(K)]
    x = c.partial(getattr(m, cls))
    x.means = [c.fresh_copy(v) for v in b.mean]
    x.invcovs = [c.fresh_copy(v) for v in b.icov]
    x.covs = [c.fresh_copy(v) for v in b.cov]
    x.weights, x.norms, x.lims, x.names, x.dim = list(b.w), list(b.norm), None, ['x%d' % i for i in range(9)], d
    for k in range(K):
        c.assume_all(d, lambda i, k=k: c.at(b.cov[k], i, i) > 0)
    b.x = x
    return b


@contract('C20', 'pdf', [K + 'pdf'], note='any number of points and dimensions, arbitrary components; one to three components')
def _(c):
    """pdf at a point is the sum over components of weight exp(-dx.invcov.dx/2)/norm, the same for one point as for a row of an array"""
    n, d = c.dim('n'), c.dim('d')
    b = comps(c, c.option('K', [1, 2, 3]), d)
    P = c.array('P', (n, d))
    r = b.x.pdf(c.fresh_copy(P))

    def want(i):
        tot = 0
        for mean, ic, w, nm in zip(b.mean, b.icov, b.w, b.norm):
            dx = lambda j: c.at(P, i, j) - c.at(mean, j)
            tot = tot + w * c.exp(-c.sum(d, lambda j: c.sum(d, lambda k: dx(j) * c.at(ic, j, k) * dx(k))) / 2) / nm
        return tot
    c.check_arr('rows', r, (n,), want)


@contract('C20', 'pdf_marged', [K + 'pdf_marged'], note='any number of points and dimensions, arbitrary components; one to three components')
def _(c):
    """the marginalized pdf of a parameter is the weighted sum of its normals"""
    n, d = c.dim('n'), c.dim('d')
    b = comps(c, c.option('K', [1, 2, 3]), d)
    k = c.int('index', 0, d - 1)
    P = c.array('P', (n,))
    r = b.x.pdf_marged(k, c.fresh_copy(P))

    def want(i):
        tot = 0
        for mean, cov, w in zip(b.mean, b.cov, b.w):
            v = c.at(cov, k, k)
            tot = tot + w * c.exp(-(c.at(P, i) - c.at(mean, k)) ** 2 / (2 * v)) / c.sqrt(2 * np.pi * v)
        return tot
    c.check_arr('rows', r, (n,), want)
    c.check_eq('by name', b.x.pdf_marged('x0', c.at(P, 0)), sum([w * c.exp(-(c.at(P, 0) - c.at(mean, 0)) ** 2 / (2 * c.at(cov, 0, 0))) / c.sqrt(2 * np.pi * c.at(cov, 0, 0))
                                                                for mean, cov, w in zip(b.mean, b.cov, b.w)], 0))


@contract('C20', 'pdf2D', [G + 'Mixture2D.pdf'], note='any number of points, arbitrary components; one to three components')
def _(c):
    """the two-dimensional pdf of x, y is the general one (symmetric inverse covariance)"""
    n = c.dim('n')
    b = comps(c, c.option('K', [1, 2, 3]), 2, 'Mixture2D')
    X, Y = c.array('X', (n,)), c.array('Y', (n,))
    r = b.x.pdf(c.fresh_copy(X), c.fresh_copy(Y))

    def want(i):
        tot = 0
        for mean, ic, w, nm in zip(b.mean, b.icov, b.w, b.norm):
            dx = [c.at(X, i) - c.at(mean, 0), c.at(Y, i) - c.at(mean, 1)]
            tot = tot + w * c.exp(-sum([dx[j] * c.at(ic, min(j, k), max(j, k)) * dx[k] for j in range(2) for k in range(2)], 0) / 2) / nm
        return tot
    c.check_arr('rows', r, (n,), want)


@contract('C20', 'ranges', [K + 'autoRanges'], note='any number of dimensions up to 3, one to three components, arbitrary values', proof=False)
def _(c):
    """a range ends at the hard limit where there is one; elsewhere it covers every component to sigma_max standard deviations"""
    d = c.option('d', [1, 2, 3])
    b = comps(c, c.option('K', [1, 2, 3]), d)
    s = c.real('sigma_max', pos=True)
    which = c.option('lims', ['none', 'lower', 'upper', 'both'])
    lo, hi = c.real('lo'), c.real('hi')
    c.assume(lo < hi)
    lims = None if which == 'none' else [(None, None)] * (d - 1) + [(lo if which in ('lower', 'both') else None, hi if which in ('upper', 'both') else None)]
    if c.flag('own'):
        b.x.lims = lims
        r = b.x.autoRanges(s)
    else:
        r = b.x.autoRanges(s, lims=lims)
    c.check('one each', len(r) == d)
    for i, (mn, mx) in enumerate(r):
        l, h = lims[i] if lims else (None, None)
        if l is not None:
            c.check_eq('lower limit', mn, lo)
        if h is not None:
            c.check_eq('upper limit', mx, hi)
        for mean, cov in zip(b.mean, b.cov):
            sd = c.sqrt(c.at(cov, i, i))
            if l is None:
                c.check('covers below', mn <= c.at(mean, i) - s * sd)
            if h is None:
                c.check('covers above', mx >= c.at(mean, i) + s * sd)
        c.check('ordered', mn < mx)


def rand(c, r, d=None, limits=False):
    """a mixture with its declared contents"""
    m = c.module('getdist.gaussian_mixtures')
    b = Box()
    b.d = d or c.int('d', 1, 4)
    b.K = c.int('K', 1, 4)
    b.means = r.normal(0, 2, (b.K, b.d))
    b.covs = [spd(r, b.d, 0.5) for _ in range(b.K)]
    b.raw = c.option('weights', [None, 'unit', 'big'])
    w = None if b.raw is None else r.uniform(0.1, 1, b.K) * (1 if b.raw == 'unit' else 7)
    b.w = np.ones(b.K) / b.K if w is None else w / w.sum()
    b.names = ['a', 'b', 'c', 'd'][:b.d]
    b.labels = ['A_{%d}' % i for i in range(b.d)]
    b.lims = None
    if limits:
        b.lims = [(None, None)] * b.d
        k = c.int('limited', 0, b.d - 1)
        b.lims[k] = c.option('lim', [(-1.0, None), (None, 1.5), (-1.0, 1.5)])
        b.limited = k
    b.args = dict(means=b.means.copy(), covs=[x.copy() for x in b.covs], weights=None if w is None else w.copy(), lims=b.lims, names=list(b.names), labels=list(b.labels), label='L')
    b.x = m.MixtureND(**b.args)
    return b


def gauss(x, mean, cov):
    dx = np.asarray(x, dtype=float) - mean
    return np.exp(-0.5 * np.einsum('...i,ij,...j->...', dx, np.linalg.inv(cov), dx)) / np.sqrt(np.linalg.det(2 * np.pi * np.atleast_2d(cov)))


def mix(b, x, ix=None):
    ix = list(range(b.d)) if ix is None else ix
    return sum(w * gauss(x, mean[ix], cov[np.ix_(ix, ix)]) for w, mean, cov in zip(b.w, b.means, b.covs))


@contract('C20', 'moments', [K + '__init__', K + 'pdf', G + 'GaussianND.__init__', G + 'Gaussian2D.__init__', G + 'Gaussian1D.__init__', G + 'Mixture1D.__init__', G + 'make_2D_Cov', K + 'getUpper', K + 'getLower'],
          symbolic=False, runs=300)
def _(c):
    """weights are normalised; total mean and covariance are those of the mixture; the pdf is normalised; each way of declaring a Gaussian gives the same one"""
    m = c.module('getdist.gaussian_mixtures')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    b = rand(c, r, limits=c.flag('limits'))
    x = b.x
    c.check('weights', np.allclose(x.weights, b.w))
    mean = b.w.dot(b.means)
    cov = sum(w * (C + np.outer(q - mean, q - mean)) for w, C, q in zip(b.w, b.covs, b.means))
    c.check('mean', np.allclose(x.total_mean, mean))
    c.check('cov', x.total_cov.shape == (b.d, b.d) and np.allclose(x.total_cov, cov, rtol=1e-9, atol=1e-10))
    P = r.normal(0, 2, (5, b.d))
    c.check('pdf', np.allclose(x.pdf(P), mix(b, P), rtol=1e-8))
    c.check('pdf of one', np.allclose([x.pdf(p) for p in P], mix(b, P), rtol=1e-8))
    for i, nm in enumerate(b.names):
        c.check('marginal', np.allclose(x.pdf_marged(i, P[:, i], no_limit_marge=True), mix(b, P[:, i:i + 1], [i]), rtol=1e-8))
        lo, hi = (None, None) if b.lims is None else b.lims[i]
        c.check('limits', (x.getLower(nm), x.getUpper(nm)) == (lo, hi), (nm, x.getLower(nm), x.getUpper(nm)))
    c.check('caller', np.array_equal(b.args['means'], b.means) and all(np.array_equal(p, q) for p, q in zip(b.args['covs'], b.covs)) and
            (b.raw is None or np.allclose(b.args['weights'] / b.args['weights'].sum(), b.w) and (b.raw == 'unit' or b.args['weights'].sum() != 1)))
    C = b.covs[0]
    for g in [m.GaussianND(b.means[0], C), m.GaussianND(list(b.means[0]), np.linalg.inv(C), is_inv_cov=True)]:
        c.check('GaussianND', np.allclose(g.pdf(P), gauss(P, b.means[0], C), rtol=1e-6))
    if b.d == 2:
        sx, sy = np.sqrt(np.diag(C))
        for g in [m.Gaussian2D(b.means[0], C), m.Gaussian2D(b.means[0], [sx, sy, C[0, 1] / sx / sy]), m.Mixture2D([b.means[0]], [(sx, sy, C[0, 1] / sx / sy)])]:
            c.check('Gaussian2D', np.allclose(g.pdf(P[:, 0], P[:, 1]), gauss(P, b.means[0], C), rtol=1e-6) and np.allclose(g.pdf(P), gauss(P, b.means[0], C), rtol=1e-6))
    if b.d == 1:
        s = [np.sqrt(q[0, 0]) for q in b.covs]
        g = m.Mixture1D(b.means[:, 0], s, weights=b.args['weights'])
        c.check('Mixture1D', np.allclose(g.pdf(P[:, 0]), mix(b, P), rtol=1e-8))
        g = m.Gaussian1D(b.means[0, 0], s[0], xmin=-3)
        c.check('Gaussian1D', np.allclose(g.pdf(P[:, 0]), gauss(P, b.means[0], C), rtol=1e-8) and g.lims == [(-3, None)])


@contract('C20', 'marginal', [K + 'marginalizedMixture', K + '_params_to_indices', K + 'checkNoLimits'], symbolic=False, runs=300)
def _(c):
    """marginalizing keeps the named parameters in the asked order with their labels and limits, and refuses to marginalize over a limited one"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    b = rand(c, r, limits=c.flag('limits'))
    ix = list(c._in('keep', lambda: tuple(c.rng.sample(range(b.d), c.rng.randint(1, b.d)))))
    how = c.option('how', ['names', 'indices', 'infos'])
    params = [b.names[i] for i in ix] if how == 'names' else list(ix) if how == 'indices' else [b.x.paramNames.names[i] for i in ix]
    lost = b.lims is not None and b.limited not in ix
    force = c.flag('force')
    try:
        q = b.x.marginalizedMixture(params, no_limit_marge=force, label=None if c.flag('same') else 'other')
    except Exception:
        c.check('refused', lost and not force)
        return
    c.check('not refused', not lost or force)
    c.check('names', q.names == [b.names[i] for i in ix] and q.paramNames.labels() == [b.labels[i] for i in ix])
    c.check('label', q.label in ('L', 'other'))
    P = r.normal(0, 2, (5, len(ix)))
    c.check('pdf', np.allclose(q.pdf(P), mix(b, P, ix), rtol=1e-8))
    if b.lims is not None:
        c.check('limits', [tuple(l) for l in q.lims] == [b.lims[i] for i in ix])
    c.check('weights', np.allclose(q.weights, b.w))
    mean = b.w.dot(b.means)
    cov = sum(w * (C + np.outer(z - mean, z - mean)) for w, C, z in zip(b.w, b.covs, b.means))
    c.check('moments', np.allclose(q.total_mean, mean[ix]) and np.allclose(q.total_cov, cov[np.ix_(ix, ix)], rtol=1e-8, atol=1e-10))
    c.check('original', np.allclose(b.x.means, b.means) and b.x.names == b.names)


@contract('C20', 'conditional', [K + 'conditionalMixture'], symbolic=False, runs=300)
def _(c):
    """the conditional density is joint over marginal; limits on remaining parameters are refused"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    b = rand(c, r, d=c.int('dims', 2, 4), limits=c.flag('limits'))
    fix = list(c._in('fix', lambda: tuple(c.rng.sample(range(b.d), c.rng.randint(1, b.d - 1)))))
    keep = [i for i in range(b.d) if i not in fix]
    vals = b.means[0][fix] + r.normal(0, 0.5, len(fix))
    params = [b.names[i] for i in fix] if c.flag('names') else list(fix)
    try:
        lab = c.option('label', [None, 'cut'])
        q = b.x.conditionalMixture(params, list(vals)) if lab is None else b.x.conditionalMixture(params, list(vals), label=lab)
    except Exception:
        c.check('refused', b.lims is not None and b.limited in keep)
        return
    c.check('not refused', b.lims is None or b.limited in fix)
    c.check('names', q.names == [b.names[i] for i in keep] and q.paramNames.labels() == [b.labels[i] for i in keep])
    c.check('label', q.label == (lab or b.x.label))
    P = b.means[0][keep] + r.normal(0, 1, (4, len(keep)))
    full = np.zeros((4, b.d))
    full[:, keep] = P
    full[:, fix] = vals
    c.check('pdf', np.allclose(q.pdf(P), mix(b, full) / mix(b, vals, fix), rtol=1e-6, atol=1e-12))
    q.checkNoLimits([])


@contract('C20', 'densities', [K + 'density1D', K + 'density2D', G + 'Mixture2D._density2D', K + 'autoRanges'], symbolic=False, runs=60)
def _(c):
    """gridded densities are the marginal pdf at their grid points, over the asked range, inside the limits"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    b = rand(c, r, d=c.int('dims', 1, 3), limits=c.flag('limits'))
    i = c.int('i', 0, b.d - 1)
    force = c.flag('force')
    n = c.option('num', [11, 50])
    lost = b.lims is not None and b.limited != i
    try:
        D = b.x.density1D(b.names[i] if c.flag('name') else i, num_points=n, no_limit_marge=force)
    except Exception:
        c.check('refused', lost and not force)
        D = None
    if D is not None:
        c.check('not refused', force or not lost)
        c.check('points', len(D.x) == n)
        c.check('1D', np.allclose(D.P, mix(b, D.x[:, None], [i]), rtol=1e-8))
        inside(c, b, i, D.x[0], D.x[-1], 4)
    if b.d > 1:
        pair = list(c._in('pair', lambda: tuple(c.rng.sample(range(b.d), 2))))
        ends = dict(xmin=-2.0) if c.flag('xmin') else {}
        if c.flag('ymax'):
            ends['ymax'] = 3.0
        if c.flag('xmax'):
            ends['xmax'] = 2.5
        if c.flag('ymin'):
            ends['ymin'] = -1.5
        ns = c.option('sigmas', [5, 3, 7])
        try:
            D = b.x.density2D([b.names[k] for k in pair], num_points=n, sigma_max=ns, **ends)
        except Exception:
            c.check('refused', b.lims is not None and b.limited not in pair)
            return
        xx, yy = np.meshgrid(D.x, D.y)
        c.check('2D', D.P.shape == (n, n) and np.allclose(D.P, mix(b, np.stack([xx, yy], axis=-1), pair), rtol=1e-7))
        if not ends:
            inside(c, b, pair[0], D.x[0], D.x[-1], ns, True)
            inside(c, b, pair[1], D.y[0], D.y[-1], ns, True)
        if 'xmin' in ends:
            c.check('xmin', D.x[0] == -2.0)
        if 'ymax' in ends:
            c.check('ymax', D.y[-1] == 3.0)
        if 'xmax' in ends:
            c.check('xmax', D.x[-1] == 2.5)
        if 'ymin' in ends:
            c.check('ymin', D.y[0] == -1.5)
        if b.d == 2 and b.lims is None and not ends:
            E = b.x.density2D(num_points=n)
            c.check('all', np.allclose(E.P, mix(b, np.stack(np.meshgrid(E.x, E.y), axis=-1)), rtol=1e-7))


def inside(c, b, i, lo, hi, s, tight=False):
    l, h = (None, None) if b.lims is None else b.lims[i]
    sd = [np.sqrt(q[i, i]) for q in b.covs]
    c.check('start', lo == l if l is not None else all(lo <= m[i] - s * q + 1e-9 for m, q in zip(b.means, sd)))
    c.check('end', hi == h if h is not None else all(hi >= m[i] + s * q - 1e-9 for m, q in zip(b.means, sd)))


@contract('C20', 'samples', [K + 'sim', K + 'MCSamples', G + 'Mixture1D.pdf'], symbolic=False, runs=60)
def _(c):
    """the asked number of samples, inside the limits, distributed as the (truncated) mixture to 7 standard errors; the likelihoods are -log pdf"""
    m = c.module('getdist.gaussian_mixtures')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    one = c.flag('1D class')
    b = rand(c, r, d=1 if one else None, limits=c.flag('limits'))
    if one:
        b.x = m.Mixture1D(b.means[:, 0], [np.sqrt(q[0, 0]) for q in b.covs], weights=b.w, name='a', lims=b.lims[0] if b.lims else None)
        b.labels = ['a']
    if b.lims is not None:
        # enough of the mass inside
        from scipy.stats import norm
        l, h = b.lims[b.limited]
        k = b.limited
        cdf = lambda x, q: norm.cdf((x - b.means[q, k]) / np.sqrt(b.covs[q][k, k]))
        frac = np.array([(1 if h is None else cdf(h, q)) - (0 if l is None else cdf(l, q)) for q in range(b.K)])
        if b.w.dot(frac) < 0.2:
            raise Skip
    size = c.option('size', [1, 10, 10, 4000])
    S = b.x.sim(size, random_state=c.int('rs', 0, 10 ** 6))
    c.check('size', S.shape == (size, b.d))
    if b.lims is not None:
        c.check('inside', all((l is None or (S[:, i] >= l).all()) and (h is None or (S[:, i] <= h).all()) for i, (l, h) in enumerate(b.lims)))
    if size > 10:
        if b.lims is None:
            mean = b.w.dot(b.means)
            cov = sum(w * (C + np.outer(q - mean, q - mean)) for w, C, q in zip(b.w, b.covs, b.means))
            se = np.sqrt(np.diag(cov) / size)
            c.check('mean', (np.abs(S.mean(axis=0) - mean) < 7 * se).all())
            A = np.linalg.inv(np.linalg.cholesky(cov))
            Z = (S - mean).dot(A.T)
            c.check('covariance', np.abs(np.atleast_2d(np.cov(Z.T)) - np.eye(b.d)).max() < 0.35)
        # fractions below fixed points, in one direction
        from scipy.stats import norm
        k = 0 if b.lims is None else b.limited
        l, h = (None, None) if b.lims is None else b.lims[k]
        cdf = lambda x: sum(w * norm.cdf((x - q[k]) / np.sqrt(C[k, k])) for w, q, C in zip(b.w, b.means, b.covs))
        lo, hi = 0 if l is None else cdf(l), 1 if h is None else cdf(h)
        for x in [-0.5, 0.3, 1.0]:
            p = min(1, max(0, (cdf(x) - lo) / (hi - lo)))
            c.check('fraction', abs((S[:, k] <= x).mean() - p) <= 7 * np.sqrt(max(p * (1 - p), 1e-4) / size) + 2e-3, (x, p))
        # order carries no information
        h1, h2 = S[:size // 2, k].mean(), S[size // 2:, k].mean()
        c.check('order', abs(h1 - h2) <= 7 * S[:, k].std() * 2 / np.sqrt(size))
    if size > 1:
        like = c.flag('likes')
        over = None if c.flag('keep names') else ['n%d' % i for i in range(b.d)]
        M = b.x.MCSamples(size, names=over, logLikes=like, random_state=5, settings={'ignore_rows': 0})
        c.check('count', M.samples.shape == (size, b.d))
        c.check('names', M.paramNames.list() == (over or b.names), M.paramNames.list())
        if like:
            c.check('loglikes', M.loglikes.shape == (size,) and np.allclose(M.loglikes, -np.log(mix(b, M.samples)), rtol=1e-7, atol=1e-9))
        if b.lims is not None:
            nm = M.paramNames.list()[b.limited]
            c.check('ranges', (M.ranges.getLower(nm), M.ranges.getUpper(nm)) == b.lims[b.limited])


@contract('C20', 'two_dim', [G + 'Mixture2D.__init__', G + 'Mixture2D._updateLimits', G + 'Mixture2D._density2D', K + 'density2D', K + 'pdf_marged', K + 'autoRanges', K + 'density1D'],
          symbolic=False, runs=100)
def _(c):
    """a two-dimensional mixture has the limits it is declared with, in either way; its gridded density spans the asked ends, else the limits, else the components; the
    marginal pdf over a limited parameter is refused unless asked for"""
    m = c.module('getdist.gaussian_mixtures')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    b = rand(c, r, d=2)
    pool = dict(xmin=-1.5, xmax=2.5, ymin=-2.5, ymax=1.5)
    keys = list(c._in('keys', lambda: tuple(k for k in sorted(pool) if c.rng.random() < 0.4)))
    base = c.option('lims', [None, [(None, None), (None, None)], [(-9.0, None), (None, 8.0)], [(-7, 7), (-6, 6)]])
    form = c.option('cov', ['array', 'list', 'tuple', 'sigmas', 'sigma list'])
    covs = []
    for C in b.covs:
        sx, sy = np.sqrt(np.diag(C))
        rho = C[0, 1] / sx / sy
        covs.append({'array': C, 'list': C.tolist(), 'tuple': tuple(map(tuple, C)), 'sigmas': (sx, sy, rho), 'sigma list': [sx, sy, rho]}[form])
    x = m.Mixture2D(b.means, covs, weights=b.args['weights'], lims=base, label='L', **{k: pool[k] for k in keys})
    want = [list(l) for l in (base or [(None, None)] * 2)]
    for k in keys:
        want[0 if k[0] == 'x' else 1][0 if k.endswith('min') else 1] = pool[k]
    c.check('limits', [list(l) for l in x.lims] == want, (x.lims, want))
    c.check('names', x.names == ['x', 'y'] and (x.getLower('x'), x.getUpper('x'), x.getLower('y'), x.getUpper('y')) == tuple(want[0] + want[1]))
    c.check('covariances', all(np.allclose(p, q, rtol=1e-8) for p, q in zip(x.covs, b.covs)))
    P = r.normal(0, 2, (4, 2))
    c.check('pdf', np.allclose(x.pdf(P[:, 0], P[:, 1]), mix(b, P), rtol=1e-7))
    for i in (0, 1):
        lost = any(v is not None for v in want[1 - i])
        for how in (i, x.names[i]):
            for f in (lambda **k: x.pdf_marged(how, P[:, i], **k), lambda **k: x.density1D(how, num_points=20, **k)):
                try:
                    v = f()
                except Exception:
                    c.check('refused', lost)
                else:
                    c.check('not refused', not lost)
                v = f(no_limit_marge=True)
                at, v = (P[:, i], v) if isinstance(v, np.ndarray) else (v.x, v.P)
                c.check('marginal', np.allclose(v, mix(b, at[:, None], [i]), rtol=1e-7))
    ends = {k: v * 1.25 for k, v in pool.items() if c.flag('end ' + k)}
    sig = c.option('sigma_max', [3, 5])
    y = x if c.flag('same') else m.MixtureND(b.means, b.covs, weights=b.args['weights'], lims=want, names=['x', 'y'], label='L')
    D = y.density2D(num_points=25, sigma_max=sig, **ends)
    c.check('2D', np.allclose(D.P, mix(b, np.stack(np.meshgrid(D.x, D.y), axis=-1)), rtol=1e-7))
    sd = [[np.sqrt(q[i, i]) for q in b.covs] for i in (0, 1)]
    for i, ax in enumerate('xy'):
        g = getattr(D, ax)
        lo, hi = ends.get(ax + 'min', want[i][0]), ends.get(ax + 'max', want[i][1])
        c.check('start', g[0] == lo if lo is not None else all(g[0] <= q[i] - sig * s + 1e-9 for q, s in zip(b.means, sd[i])), (ax, g[0], lo))
        c.check('end', g[-1] == hi if hi is not None else all(g[-1] >= q[i] + sig * s - 1e-9 for q, s in zip(b.means, sd[i])), (ax, g[-1], hi))
        c.check('increasing', len(g) == 25 and (np.diff(g) > 0).all())
