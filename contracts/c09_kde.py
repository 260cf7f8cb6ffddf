"""C09: density estimation conserves weight and respects hard priors"""
import contextlib
import weakref
import logging
import numpy as np
from pyvc.api import contract
from contracts.common import Box

M = 'getdist.mcsamples:MCSamples.'


def bare(c):
    m = c.module('getdist.mcsamples')
    return c.partial(m.MCSamples)


def mc(c, X, w=None, loglikes=None, **k):
    m = c.module('getdist.mcsamples')
    c.module('getdist.chains').print_load_details = False
    logging.disable(logging.CRITICAL)
    k.setdefault('names', ['p%d' % i for i in range((X[0] if isinstance(X, list) else X).shape[1])])
    st = {'min_weight_ratio': -1}
    st.update(k.pop('settings', {}))
    return m.MCSamples(samples=X, weights=w, loglikes=loglikes, ignore_rows=0, settings=st, **k)


@contract('C09', 'bin_nearest', [M + '_binSamples'], assumes=['exact arithmetic in the bin index'])
def _(c):
    """every sample goes to its nearest grid point, inside the grid, which covers samples and plotted range and ends at the hard bounds"""
    n = c.dim('n', lo=1)
    N = c.dim('N', lo=2, hi=40, small=(2, 3, 5))
    v = c.array('v', (n,), gen=lambda r, d: r.randn(*d) * 10 ** r.uniform(-3, 3))
    p = Box()
    p.param_min, p.param_max = c.min(n, lambda i: c.at(v, i)), c.max(n, lambda i: c.at(v, i))
    p.name = 'x'
    p.has_limits_bot, p.has_limits_top = c.flag('bot'), c.flag('top')
    p.has_limits = p.has_limits_bot or p.has_limits_top
    if c.concrete:
        sp = abs(p.param_max - p.param_min) + 0.1
        p.range_min = p.param_min - (c.rng.random() * sp if p.has_limits_bot else (c.rng.random() - 0.3) * sp)
        p.range_max = p.param_max + (c.rng.random() * sp if p.has_limits_top else (c.rng.random() - 0.3) * sp)
        c.assume(p.range_max > p.range_min)
    else:
        p.range_min, p.range_max = c.real('rmin'), c.real('rmax')
        c.assume(p.range_max > p.range_min)
        if p.has_limits_bot:
            c.assume(p.range_min <= p.param_min)
        if p.has_limits_top:
            c.assume(p.range_max >= p.param_max)
    rmin, rmax = p.range_min, p.range_max
    ix, w, lo, hi = bare(c)._binSamples(v, p, N)
    tol = 1e-9 * (1 + abs(lo) / w) if c.concrete else 0
    t = tol * w
    c.check('width', c.And(w > 0, lo + w * (N - 1) <= hi + t, lo + w * (N - 1) >= hi - t))
    c.check('covers', c.And(lo <= rmin, hi >= rmax, lo <= p.param_min, hi >= p.param_max))
    if p.has_limits_bot:
        c.check_eq('bottom', lo, rmin)
    if p.has_limits_top:
        c.check_eq('top', hi, rmax)
    c.check('length', c.length(ix) == n)
    at = lambda i: c.at(ix, i)
    c.check('inside', c.forall(n, lambda i: c.And(at(i) >= 0, at(i) <= N - 1)))
    c.check('nearest', c.forall(n, lambda i: c.And(c.at(v, i) - (lo + at(i) * w) <= w / 2 + t, c.at(v, i) - (lo + at(i) * w) >= -w / 2 - t)))


@contract('C09', 'hist_2d', [M + '_make2Dhist'])
def _(c):
    n = c.dim('n', lo=1, small=(1, 2))
    nx, ny = c.dim('nx', lo=2, hi=6, small=(2, 3)), c.dim('ny', lo=2, hi=6, small=(2,))
    w = c.array('w', (n,), gen=lambda r, d: r.rand(*d), pred=lambda t: t >= 0)
    ix = c.array('ix', (n,), kind='i', gen=lambda r, d: r.randint(0, int(nx), d), pred=lambda t: c.And(t >= 0, t < nx))
    iy = c.array('iy', (n,), kind='i', gen=lambda r, d: r.randint(0, int(ny), d), pred=lambda t: c.And(t >= 0, t < ny))
    s = bare(c)
    s.weights = w
    H, flat = s._make2Dhist(ix, iy, nx, ny)
    c.check_arr('counts', H, (ny, nx), lambda a, b: c.sum(n, lambda i: c.ite(c.And(c.at(ix, i) == b, c.at(iy, i) == a), c.at(w, i), 0)))


@contract('C09', 'ranges', [M + '_initParam'], assumes=['quantiles of a sample lie between its minimum and maximum (C07)'])
def _(c):
    """the plotted range never passes a hard bound; a bound that is kept is exactly the end of the range"""
    s = bare(c)
    n = c.dim('n', lo=2)
    v = c.array('v', (n,), gen=lambda r, d: r.randn(*d))
    p = Box()
    p.name = 'x'
    bot, top = c.flag('bot'), c.flag('top')
    lim = lambda q: dict(gen=lambda: c.rng.choice([0, 0.01, 0.1, 1, 5]) * c.rng.random() * q)
    mn, mx = c.min(n, lambda i: c.at(v, i)), c.max(n, lambda i: c.at(v, i))
    if bot:
        p.limmin = mn + c.real('dmin', -10, 0, **lim(-1))
        c.assume(p.limmin <= mn)
    if top:
        p.limmax = mx + c.real('dmax', 0, 10, **lim(1))
        c.assume(p.limmax >= mx)
    p.has_limits_bot, p.has_limits_top = bot, top
    s.range_confidence = 0.001
    s.range_ND_contour = -1
    s.likeStats = None
    if c.concrete:
        w = np.random.RandomState(c.int('seed', 0, 10000)).rand(int(n)) + 0.01
        c.assume(np.ptp(v) > 1e-6)
        s = mc(c, np.asarray(v).reshape(-1, 1), w)
        s.range_ND_contour = -1
        sd = np.std(v) + 1e-12
    else:
        q = c.array('q', (11,), pred=lambda t: c.And(t >= mn, t <= mx))
        for i, j in [(0, 2), (10, 1)] + [(k, k + 1) for k in range(2, 10)]:
            c.assume(c.at(q, i) <= c.at(q, j))
        s.initParamConfidenceData = lambda *a, **k: 'confid'
        s.confidence = lambda *a, **k: c.fresh_copy(q)
        sd = c.real('sd', pos=True)
    r = s._initParam(p, v, mean=c.real('mean'), sddev=sd)
    c.check_is('returned', r, p)
    c.check_eq('min', p.param_min, mn)
    c.check_eq('max', p.param_max, mx)
    c.check('flag', bool(p.has_limits) == bool(p.has_limits_bot or p.has_limits_top))
    if bot:
        c.check('not_below', p.range_min >= p.limmin)
        if p.has_limits_bot:
            c.check_eq('at_bottom', p.range_min, p.limmin)
        else:
            c.check('bottom_far', mn > p.limmin)
    else:
        c.check('still_unbounded_below', not p.has_limits_bot)
    if top:
        c.check('not_above', p.range_max <= p.limmax)
        if p.has_limits_top:
            c.check_eq('at_top', p.range_max, p.limmax)
        else:
            c.check('top_far', mx < p.limmax)
    else:
        c.check('still_unbounded_above', not p.has_limits_top)


# ---- the whole estimator against a direct (no FFT, no cache) computation; bounded sizes, label: concrete stand-in

def problem(c, d, n=(30, 150)):
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n = c.int('n', *n)
    X = r.randn(n, d)
    if d == 2 and c.flag('corr'):
        X[:, 1] = X[:, 1] * 0.7 + X[:, 0] * 0.7
    sc = 10 ** r.uniform(-2, 2, d)
    ranges = {}
    for k in range(d):
        how = c.option('prior%d' % k, ['none', 'bot', 'top', 'both', 'far'])
        if how in ('bot', 'both'):
            X[:, k] = abs(X[:, k])
        if how == 'both':
            X[:, k] = X[:, k] % 1.5
        if how == 'top':
            X[:, k] = -abs(X[:, k])
        lim = {'none': (None, None), 'bot': (0, None), 'top': (None, 0), 'both': (0, 1.5), 'far': (-40, 40)}[how]
        off = r.uniform(-3, 3)
        X[:, k] = (X[:, k] + off) * sc[k]
        ranges['p%d' % k] = [None if q is None else (q + off) * sc[k] for q in lim]
    w = {'one': np.ones(n), 'int': r.randint(1, 5, n).astype(float), 'real': r.rand(n) + 0.01}[c.option('w', ['one', 'int', 'real'])]
    return X, w, ranges, r


def hat(c, name, x, lim):
    """is the bound an end of the grid?"""
    lo, hi = lim
    eps = 1e-9 * (x[-1] - x[0])
    bot = lo is not None and abs(x[0] - lo) < eps
    top = hi is not None and abs(x[-1] - hi) < eps
    return bot, top


def nearest(X, x):
    return np.array([int(np.argmin(np.abs(x - v))) for v in X])


def grid_checks(c, tag, x, X, lim, view):
    lo, hi = lim
    c.check(tag + 'uniform', np.allclose(np.diff(x), (x[-1] - x[0]) / (len(x) - 1), rtol=1e-6))
    eps = 1e-9 * (x[-1] - x[0])
    c.check(tag + 'covers_samples', x[0] <= X.min() + eps and x[-1] >= X.max() - eps)
    c.check(tag + 'covers_view', x[0] <= view[0] + eps and x[-1] >= view[1] - eps)
    sig = np.std(X)
    if lo is not None and X.min() - lo < 0.1 * sig:
        c.check(tag + 'ends_at_lower_bound', abs(x[0] - lo) < eps)
    if hi is not None and hi - X.max() < 0.1 * sig:
        c.check(tag + 'ends_at_upper_bound', abs(x[-1] - hi) < eps)
    if lo is not None:
        c.check(tag + 'view_inside_lower', view[0] >= lo - eps)
    if hi is not None:
        c.check(tag + 'view_inside_upper', view[1] <= hi + eps)


class Watch(object):
    """1D convolutions by the transform at every size, as they are for large grids (results do not depend on the size above which it is used), and the
    precondition of the cached ones: a transform found by the identity of an array is that of the same array, so no array has been freed that could be taken for it"""
    def __init__(self, c):
        self.c, self.seen = c, []

    def __enter__(self):
        c = self.c
        m, cv = c.module('getdist.mcsamples'), c.module('getdist.convolve')
        self.was = [(o, n, getattr(o, n)) for o in (m, cv) for n in ('convolve1D', 'convolve2D') if hasattr(o, n)]

        def convolve1D(x, y, mode, largest_size=0, cache=None, cache_args=(1, 2)):
            self.call(x, y, cache, cache_args)
            return cv.convolveFFT(x, y, mode, largest_size=largest_size, cache=cache, cache_args=cache_args)

        def convolve2D(x, y, mode, largest_size=0, cache=None, cache_args=(1, 2)):
            self.call(x, y, cache, cache_args)
            return cv.convolveFFTn(x, y, mode, largest_size, cache, cache_args=cache_args)
        for o, n, f in self.was:
            setattr(o, n, {'convolve1D': convolve1D, 'convolve2D': convolve2D}[n])

    def call(self, x, y, cache, cache_args):
        if cache is None:
            return
        for k, a in ((1, x), (2, y)):
            if k in cache_args:
                self.c.check('cached_arrays_kept', not any(q is cache and shape == a.shape and ref() is None for q, shape, ref in self.seen))
        self.seen += [(cache, a.shape, weakref.ref(a)) for k, a in ((1, x), (2, y)) if k in cache_args]

    def __exit__(self, *a):
        for o, n, f in self.was:
            setattr(o, n, f)


@contract('C09', 'kde_1d', [M + 'get1DDensityGridData', M + 'get1DDensity', 'getdist.mcsamples:Kernel1D.__init__', M + '_binSamples', M + '_initParam'], symbolic=False, runs=120)
def _(c):
    X, w, ranges, r = problem(c, 1)
    order, bias = c.option('order', [0, 1, 2, -1]), c.int('bias', 0, 2)
    scale = c.option('scale', [0.2, 0.35, 0.6, 1.5, 3.0])
    fb = c.option('fine_bins', [64, 100, 257, 64, 100, 257, 128, 2050])
    nb = c.option('num_bins', [20, 33, 100])
    style = c.option('how', ['kwargs', 'settings'])
    opt = dict(boundary_correction_order=order, mult_bias_correction_order=bias, smooth_scale_1D=scale, fine_bins=fb, num_bins=nb)
    likes, mean = c.flag('likes'), c.flag('mean_loglikes')
    L = (X[:, 0] - X[:, 0].mean()) ** 2 / X[:, 0].var() + r.rand(len(w)) + 3
    s = mc(c, X, w, loglikes=L, ranges=ranges, settings=opt if style == 'settings' else {})
    s.shade_likes_is_mean_loglikes = mean
    c.check('no_parameter', s.get1DDensityGridData('nothing') is None)
    with Watch(c) if c.flag('fft') else contextlib.nullcontext():
        d = s.get1DDensityGridData('p0', meanlikes=likes, **(opt if style == 'kwargs' else {}))
    x, P, v = d.x, d.P, X[:, 0]
    c.check('size', len(x) == fb and len(P) == fb)
    grid_checks(c, '', x, v, ranges['p0'], d.view_ranges)
    bot, top = hat(c, 'x', x, ranges['p0'])
    h = (x[-1] - x[0]) / (fb - 1)
    bins = np.zeros(fb)
    np.add.at(bins, nearest(v, x), w)
    mu = np.sum(w * v) / np.sum(w)
    err = np.sqrt(np.sum(w * (v - mu) ** 2) / np.sum(w))
    width = scale * err if scale < 1 else scale * (d.view_ranges[1] - d.view_ranges[0]) / (nb - 1)
    width = min(max(1, width / h), fb // 2)
    half = min(int(round(2.5 * width)), fb // 2 - 2)
    u = np.arange(fb)[:, None] - np.arange(fb)[None, :]
    K = np.where(abs(u) <= half, np.exp(-(u / width) ** 2 / 2), 0)
    t = np.arange(-half, half + 1)
    kern = np.exp(-(t / width) ** 2 / 2)
    norm = kern.sum()
    K, kern = K / norm, kern / norm
    E = raw = K.dot(bins)
    # allowed region: points of the extended grid inside the prior, half weight at a bound
    ext = np.arange(-half, fb + half)
    mask = np.ones(len(ext))
    if bot:
        mask[ext < 0] = 0
        mask[ext == 0] = 0.5
    if top:
        mask[ext > fb - 1] = 0
        mask[ext == fb - 1] = 0.5
    ue = np.arange(fb)[:, None] - ext[None, :]
    Ke = np.where(abs(ue) <= half, np.exp(-(ue / width) ** 2 / 2), 0) / norm
    m = [(Ke * ue ** q).dot(mask) for q in range(5)]
    if (bot or top) and order >= 0:
        ok = (m[0] * E) != 0
        plain = np.where(ok, E / np.where(ok, m[0], 1), E)
        M1 = (K * u).dot(bins)
        if order == 0:
            E2 = plain
        else:
            with np.errstate(all='ignore'):
                if order == 1:
                    cor = (E * m[2] - M1 * m[1]) / (m[0] * m[2] - m[1] ** 2)
                else:
                    M2 = (K * u ** 2).dot(bins)
                    cor = np.empty(fb)
                    for k in range(fb):
                        A = np.array([[m[0][k], m[1][k], m[2][k]], [m[1][k], m[2][k], m[3][k]], [m[2][k], m[3][k], m[4][k]]])
                        cor[k] = np.linalg.solve(A, np.array([E[k], M1[k], M2[k]]))[0] if abs(np.linalg.det(A)) > 0 else 0
                E2 = np.where(ok, plain * np.exp(np.minimum(cor / np.where(ok, plain, 1), 4) - 1), E)
        E = E2
    elif order == 2:
        k2, k4 = np.sum(kern * t ** 2), np.sum(kern * t ** 4)
        cor = (E * k4 - k2 * (K * u ** 2).dot(bins)) / (k4 - k2 ** 2)
        ok = E > 0
        E = np.where(ok, E * np.exp(np.minimum(cor / np.where(ok, E, 1), 2) - 1), E)
    if bias:
        pm = np.ones(fb)
        pm[0] -= 0.5 * bot
        pm[-1] -= 0.5 * top
        a0 = K.dot(pm)
        for _ in range(bias):
            E = E * K.dot(bins / np.where(E == 0, 1, E)) / a0
    E = E / E.max()
    c.check('non_negative', P.min() >= -1e-9)
    c.check('estimate', np.allclose(P, E, rtol=2e-6 if order < 2 else 1e-4, atol=1e-7 if order < 2 else 1e-5))
    if not likes:
        c.check('no_likes', d.likes is None)
    else:
        # mean over the samples, smoothed in the same way
        fl = np.zeros(fb)
        np.add.at(fl, nearest(v, x), w * (L if mean else np.exp(L.min() - L)))
        far = raw > 1e-7 * raw.max()
        ml = np.where(far, K.dot(np.where(E > 0, fl / np.where(E > 0, E, 1), fl)) * E / np.where(far, raw, 1), 0)
        if mean and np.all(far):
            ml = np.exp(-(ml - ml.min()))
        if not mean or np.all(far):
            c.check('mean_likes', len(d.likes) == fb and np.allclose(d.likes[far], (ml / ml.max())[far], rtol=1e-3, atol=2e-4), lambda: '%s, expected %s' % (d.likes[far], (ml / ml.max())[far]))
    eps = 0.001 * (x[-1] - x[0])
    c.check('zero_outside', float(np.ravel(d.Prob(x[0] - eps))[0]) == 0 and float(np.ravel(d.Prob(x[-1] + eps))[0]) == 0)


def conv2(A, K):
    """direct sum over the kernel, zero outside, same size"""
    hw = K.shape[0] // 2
    B = np.zeros((A.shape[0] + 2 * hw, A.shape[1] + 2 * hw))
    B[hw:hw + A.shape[0], hw:hw + A.shape[1]] = A
    R = np.zeros_like(A)
    for a in range(K.shape[0]):
        for b in range(K.shape[1]):
            if K[a, b]:
                R += K[a, b] * B[2 * hw - a:2 * hw - a + A.shape[0], 2 * hw - b:2 * hw - b + A.shape[1]]
    return R


@contract('C09', 'kde_2d', [M + 'get2DDensityGridData', M + 'get2DDensity', M + '_make2Dhist', M + '_setEdgeMask2D'], symbolic=False, runs=60)
def _(c):
    X, w, ranges, r = problem(c, 2, n=(40, 200))
    order, bias = c.option('order', [0, 1, -1]), c.int('bias', 0, 2)
    scale = c.option('scale', [0.2, 0.35, 0.5, 2.0, 3.0])
    fb = c.option('fine_bins', [32, 45, 64])
    opt = dict(boundary_correction_order=order, mult_bias_correction_order=bias, smooth_scale_2D=scale, fine_bins_2D=fb)
    style = c.option('how', ['kwargs', 'settings'])
    L = np.sum((X - X.mean(axis=0)) ** 2 / X.var(axis=0), axis=1) / 2 + r.rand(len(w)) + 3
    s = mc(c, X, w, loglikes=L, ranges=ranges, settings=opt if style == 'settings' else {})
    j, k = c.option('axes', [(0, 1), (1, 0)])
    nm = lambda q: 'p%d' % q if r.rand() < 0.5 else q
    c.check('no_parameter', s.get2DDensityGridData('nothing', 'p0') is None and s.get2DDensityGridData('p0', 'nothing') is None)
    likes = c.flag('likes')
    nc = c.option('contours', [None, 1, 2, 9])
    with Watch(c) if c.flag('fft') else contextlib.nullcontext():
        d = s.get2DDensityGridData(nm(j), nm(k), get_density=not likes, meanlikes=likes, num_plot_contours=nc, **(opt if style == 'kwargs' else {}))
    if likes:
        c.check('contours', np.array_equal(d.contours, d.getContourLevels(s.contours[:nc] if nc else s.contours)))
    x, y, P = d.x, d.y, d.P
    N = len(x)
    c.check('size', N == len(y) and P.shape == (N, N) and N == fb)
    vr = d.view_ranges
    rx_, ry_ = ranges['p%d' % j], ranges['p%d' % k]
    grid_checks(c, 'x_', x, X[:, j], rx_, vr[0])
    grid_checks(c, 'y_', y, X[:, k], ry_, vr[1])
    bx, by = hat(c, 'x', x, rx_), hat(c, 'y', y, ry_)
    hist = np.zeros((N, N))
    np.add.at(hist, (nearest(X[:, k], y), nearest(X[:, j], x)), w)
    W = w / w.sum()
    cov = lambda a, b: np.sum(W * (a - W.dot(a)) * (b - W.dot(b)))
    sx, sy = np.sqrt(cov(X[:, j], X[:, j])), np.sqrt(cov(X[:, k], X[:, k]))
    rho = cov(X[:, j], X[:, k]) / sx / sy
    if abs(rho) < 0.1:
        rho = 0.
    hx, hy = (x[-1] - x[0]) / (N - 1), (y[-1] - y[0]) / (N - 1)
    if scale < 1:
        rx, ry = scale * sx / hx, scale * sy / hy
    else:
        nb = int(round(s.num_bins_2D / max(0.2, np.sqrt(1 - min(s.max_corr_2D, abs(rho)) ** 2))))
        rx = ry = scale * N / nb
    hw = int(round(2.5 * max(rx, ry)))
    t = np.arange(-hw, hw + 1)
    Y, Xg = np.meshgrid(t, t, indexing='ij')
    K = np.exp(-((Xg / rx) ** 2 + (Y / ry) ** 2 - 2 * rho * Xg * Y / rx / ry) / 2 / (1 - rho ** 2))
    K /= K.sum()
    E = raw = conv2(hist, K)
    if (any(bx) or any(by)) and order >= 0:
        def prior(b):
            e = np.arange(-hw, N + hw)
            q = np.ones(len(e))
            if b[0]:
                q[e < 0], q[e == 0] = 0, 0.5
            if b[1]:
                q[e > N - 1], q[e == N - 1] = 0, 0.5
            return q
        pm = np.outer(prior(by), prior(bx))
        cut = slice(hw, hw + N)
        mom = lambda a, b: conv2(pm, K * Xg ** a * Y ** b)[cut, cut]
        ok = mom(0, 0) * E > E.max() * 1e-8
        a00 = np.where(ok, mom(0, 0), 1)
        plain = E / a00
        if order == 0:
            E = np.where(ok, plain, E)
        else:
            a10, a01, a20, a02, a11 = mom(1, 0), mom(0, 1), mom(2, 0), mom(0, 2), mom(1, 1)
            xP, yP = conv2(hist, K * Xg), conv2(hist, K * Y)
            cor = np.zeros((N, N))
            for p, q in zip(*np.nonzero(ok)):
                A = np.array([[a00[p, q], a10[p, q], a01[p, q]], [a10[p, q], a20[p, q], a11[p, q]], [a01[p, q], a11[p, q], a02[p, q]]])
                cor[p, q] = np.linalg.solve(A, [E[p, q], xP[p, q], yP[p, q]])[0]
            E = np.where(ok, plain * np.exp(np.minimum(cor / np.where(ok, plain, 1), 4) - 1), E)
    if bias:
        def edge(b):
            q = np.ones(N)
            q[0] -= 0.5 * b[0]
            q[-1] -= 0.5 * b[1]
            return q
        a00 = conv2(np.outer(edge(by), edge(bx)), K)
        for _ in range(bias):
            ok = E > E.max() * 1e-8
            E = E * conv2(np.where(ok, hist / np.where(ok, E, 1), hist), K) / a00
    E = E / E.max()
    c.check('estimate', np.allclose(P, E, rtol=1e-5, atol=3e-6))
    if likes:
        fl = np.zeros((N, N))
        np.add.at(fl, (nearest(X[:, k], y), nearest(X[:, j], x)), w * np.exp(L.min() - L))
        ml = conv2(fl, K)
        if bias:
            ml = ml * conv2(np.where(ml > 0, fl / np.where(ml > 0, ml, 1), fl), K)
        far = raw > 1e-4 * raw.max()
        ml = np.where(far, ml / np.where(far, raw, 1), 0)
        c.check('mean_likes', np.allclose(d.likes, ml / ml.max(), rtol=1e-3, atol=2e-4))


@contract('C09', 'kde_invariance', [M + 'get1DDensity', M + 'get2DDensity', M + 'getAutoBandwidth1D', M + 'getAutoBandwidth2D'], symbolic=False, runs=40)
def _(c):
    """default settings: reflecting or rescaling parameters, rescaling weights and swapping axes carry over to the density"""
    X, w, ranges, r = problem(c, 2, n=(60, 250))
    sg = [c.option('s%d' % k, [-1, 1, 2.5, -0.3]) for k in range(2)]
    if min(sg) < 0:
        w = r.rand(len(w)) + 0.01     # quantiles of equal weights can fall on ties, which reflect to the neighbouring sample
    sh = [r.randn() * abs(X[:, k]).max() for k in range(2)]
    X2 = X * sg + sh
    rg2 = {}
    for k in range(2):
        q = [None if v is None else v * sg[k] + sh[k] for v in ranges['p%d' % k]]
        rg2['p%d' % k] = q if sg[k] > 0 else q[::-1]
    a = mc(c, X, w, ranges=ranges, settings={'fine_bins': 256, 'fine_bins_2D': 64})
    b = mc(c, X2, w * c.option('ws', [1, 8.0, 0.125]), ranges=rg2, settings={'fine_bins': 256, 'fine_bins_2D': 64})
    for k in range(2):
        d, e = a.get1DDensity('p%d' % k), b.get1DDensity('p%d' % k)
        f = 1 if sg[k] > 0 else -1
        span = abs(e.x[-1] - e.x[0])
        c.check('grid', np.allclose(d.x * sg[k] + sh[k], e.x[::f], atol=1e-7 * span, rtol=0))
        c.check('density', np.allclose(d.P, e.P[::f], atol=0.01))
        c.check('range', d.P.min() >= 0 and abs(d.P.max() - 1) < 1e-9)
        for frac in (0.68, 0.95):
            m, M_, lb, lt = d.getLimits(frac)
            m2, M2, lb2, lt2 = e.getLimits(frac)
            if f < 0:
                m2, M2, lb2, lt2 = M2, m2, lt2, lb2
            if (lb, lt) == (lb2, lt2):
                c.check('limits', abs(m * sg[k] + sh[k] - m2) < 0.02 * span and abs(M_ * sg[k] + sh[k] - M2) < 0.02 * span)
    d, e, t = a.get2DDensity('p0', 'p1'), b.get2DDensity('p0', 'p1'), a.get2DDensity('p1', 'p0')
    fx, fy = [1 if q > 0 else -1 for q in sg]
    c.check('max_2d', abs(d.P.max() - 1) < 1e-9 and d.P.min() > -1e-6)
    c.check('swap', np.allclose(d.x, t.y) and np.allclose(d.y, t.x))
    c.check('grid_2d', np.allclose(d.x * sg[0] + sh[0], e.x[::fx], rtol=1e-5, atol=1e-7 * (e.x[-1] - e.x[0])) and
            np.allclose(d.y * sg[1] + sh[1], e.y[::fy], rtol=1e-5, atol=1e-7 * (e.y[-1] - e.y[0])))


@contract('C09', 'units', [M + 'get1DDensity', M + 'get2DDensity', M + 'getAutoBandwidth1D', M + 'getAutoBandwidth2D', M + '_get1DNeff', M + '_initParam'], symbolic=False, runs=40)
def _(c):
    """other units of the parameters and of the weights (powers of two, exact in the machine) give the same density on the scaled grid, with automatic bandwidths too"""
    X, w, ranges, r = problem(c, 2, n=(60, 250))
    shape = c.option('shape', ['plain', 'tight', 'lean', 'lean'])
    if shape == 'tight':
        # a correlation above the largest one that is used (not so near to one that the moments of the kernel are singular to working precision)
        X[:, 1] = X[:, 0] * 3 + 0.1 * np.std(X[:, 0]) * r.randn(len(X))
        ranges.pop('p1')
    elif shape == 'lean':
        # one parameter follows the other, which may be bounded
        k = c.int('which', 0, 1)
        X[:, k] = (c.option('slope', [0.5, 1, -1, 3]) * X[:, 1 - k] / np.std(X[:, 1 - k]) + r.randn(len(X))) * r.uniform(0.1, 10)
        ranges.pop('p%d' % k)
    sc = [2.0 ** c.int('unit%d' % k, -12, 12) for k in range(2)]
    opt = {'fine_bins': 256, 'fine_bins_2D': 64, 'mult_bias_correction_order': c.int('bias', 0, 2), 'boundary_correction_order': c.int('order', 0, 1)}
    opt['smooth_scale_1D'] = opt['smooth_scale_2D'] = c.option('scale', [-1, -1, -1, -0.7, 0.4, 2.0])
    opt['use_effective_samples_2D'] = c.flag('neff2d')
    a = mc(c, X, w, ranges=ranges, settings=opt)
    b = mc(c, X * sc, w * 2.0 ** c.int('weight', -3, 3), ranges={n: [None if v is None else v * sc[int(n[1])] for v in q] for n, q in ranges.items()}, settings=opt)
    close = lambda p, q: np.allclose(p, q, rtol=1e-6, atol=1e-6)
    for k in range(2):
        d, e = a.get1DDensity('p%d' % k), b.get1DDensity('p%d' % k)
        c.check('grid_1d', close(d.x * sc[k] / np.ptp(e.x), e.x / np.ptp(e.x)))
        c.check('density_1d', close(d.P, e.P))
    for x, y in ((0, 1), (1, 0)):
        d, e = a.get2DDensity('p%d' % x, 'p%d' % y), b.get2DDensity('p%d' % x, 'p%d' % y)
        c.check('grid_2d', len(d.x) == len(e.x) and close(d.x * sc[x] / np.ptp(e.x), e.x / np.ptp(e.x)) and close(d.y * sc[y] / np.ptp(e.y), e.y / np.ptp(e.y)))
        c.check('density_2d', close(d.P, e.P))
