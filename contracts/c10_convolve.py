"""C10: convolutions equal direct sums"""
import numpy as np
from pyvc.api import contract
from contracts.common import Box

F = 'getdist.convolve:'
FFT = ['numpy.fft: the inverse transform of the product of zero-padded transforms is the cyclic convolution (convolution theorem)']


@contract('C10', 'fft_length', [F + 'nearestFFTnumber'], symbolic=False, runs=400, note='every tabulated length and both its neighbours, and random ones')
def _(c):
    """every supported length is rounded up, to an even number, never down"""
    cv = c.module('getdist.convolve')
    T = [int(t) for t in cv.fastFFT]
    if c.flag('ends'):
        k = c.int('k', 0, len(T) - 1)
        x = c.option('which', [T[k], T[k] - 1 if k else 1, T[k - 1] + 1 if k else 1])
    else:
        x = c.int('x', 1, max(T))
    s = int(cv.nearestFFTnumber(x))
    c.check('not_smaller', s >= x)
    c.check('even', s % 2 == 0)
    c.check('smallest', s == min(t for t in T if t >= x))
    a = cv.nearestFFTnumber(np.array([x, 7, 1000]))
    c.check('vector', list(a) == [s, 8, 1024])


@contract('C10', 'fft_length_any', [F + 'nearestFFTnumber'], bounded=False, concrete=False, timeout=60)
def _(c):
    """every length from 1 to the largest of the table: not below its argument, even, and the least such length of the table"""
    cv = c.module('getdist.convolve')
    from pyvc.arr import from_list
    T = [int(t) for t in cv.fastFFT]
    c.stub('getdist.convolve', 'fastFFT', from_list(T))
    x = c.int('x', 1, max(T))
    s = cv.nearestFFTnumber(x)
    c.check('not_smaller', s >= x)
    c.check('even', c.Or(*[s == t for t in T if t % 2 == 0]))
    c.check('smallest', c.And(*[c.Implies(x <= t, s <= t) for t in T]))


def direct(c, x, y, nx, ny, k):
    """sum over i of x_i y_(k-i)"""
    if c.concrete:
        return sum(x[i] * y[k - i] for i in range(max(0, int(k) - int(ny) + 1), min(int(nx), int(k) + 1)))
    return c.sum(nx, lambda i: c.ite(c.And(k - i >= 0, k - i < ny), c.at(x, i) * c.at(y, k - i), 0))


def stub_length(c, nmax=None):
    if c.mode == 'proof':
        def nearest(x):
            if hasattr(x, 'axes'):
                from pyvc.arr import from_list
                return from_list([one(c.at(x, q), q) for q in range(2)])
            return one(x, 0)

        def one(x, q):
            t = c.int('half_length%d' % q, lo=1)
            c.assume(2 * t >= x)
            return 2 * t
        c.stub('getdist.convolve', 'nearestFFTnumber', nearest)


@contract('C10', 'fft_1d', [F + 'convolveFFT'], assumes=FFT + ['nearestFFTnumber returns an even number not below its argument (contract fft_length)'])
def _(c):
    cv = c.module('getdist.convolve')
    stub_length(c)
    nx, ny = c.dim('nx', small=(1, 3, 4), hi=60), c.dim('ny', small=(1, 2, 3), hi=60)
    mode = c.option('mode', ['full', 'same', 'valid'])
    if mode == 'valid':
        c.assume(ny <= nx)
    x, y = c.array('x', (nx,)), c.array('y', (ny,))
    ls = 0 if c.flag('any') else c.int('largest', 0, 200)
    r = cv.convolveFFT(x, y, mode, largest_size=ls)
    sc = float(np.abs(x).sum() * np.abs(y).max()) if c.concrete else 0
    if mode == 'full':
        n, off = nx + ny - 1, 0
    elif mode == 'same':
        n, off = nx, (ny - 1) // 2
    else:
        n, off = nx - ny + 1, ny - 1
    c.check_arr('direct', r, (n,), lambda k: direct(c, x, y, nx, ny, k + off), scale=sc)


@contract('C10', 'fft_nd', [F + 'convolveFFTn', F + 'convolve2D', F + '_centered'], assumes=FFT, timeout=60)
def _(c):
    cv = c.module('getdist.convolve')
    stub_length(c)
    d = {}
    for k, sm in (('nx', (2, 3)), ('mx', (2,)), ('ny', (1, 2)), ('my', (1, 2))):
        d[k] = c.dim(k, small=sm, hi=9)
    mode = c.option('mode', ['full', 'same', 'valid'])
    if mode == 'valid':
        c.assume(c.And(d['ny'] <= d['nx'], d['my'] <= d['mx']))
    x, y = c.array('x', (d['nx'], d['mx'])), c.array('y', (d['ny'], d['my']))
    ls = 0 if c.flag('any') else c.int('largest', 0, 30)
    f = cv.convolve2D if c.flag('wrapper') else cv.convolveFFTn
    r = f(x, y, mode, largest_size=ls)
    sh, off = {'full': (lambda a, b: (a + b - 1, 0)), 'same': (lambda a, b: (a, (b - 1) // 2)), 'valid': (lambda a, b: (a - b + 1, b - 1))}[mode], None
    n1, o1 = sh(d['nx'], d['ny'])
    n2, o2 = sh(d['mx'], d['my'])

    def ref(k, l):
        k, l = k + o1, l + o2
        inside = lambda i, j: c.And(k - i >= 0, k - i < d['ny'], l - j >= 0, l - j < d['my'])
        term = lambda i, j: (c.at(x, i, j) * c.at(y, k - i, l - j) if inside(i, j) else 0) if c.concrete else c.ite(inside(i, j), c.at(x, i, j) * c.at(y, k - i, l - j), 0)
        return c.sum(d['nx'], lambda i: c.sum(d['mx'], lambda j: term(i, j)))
    sc = float(np.abs(x).sum() * np.abs(y).max()) if c.concrete else 0
    c.check_arr('direct', r, (n1, n2), ref, scale=sc)


class Cache:
    """a mapping whose keys may hold symbolic sizes"""

    def __init__(self):
        self.items_ = []

    def _find(self, k):
        for q, (a, v) in enumerate(self.items_):
            if len(a) == len(k) and all(same(x, y) for x, y in zip(a, k)):
                return q
        return None

    def get(self, k, default=None):
        q = self._find(k)
        return default if q is None else self.items_[q][1]

    def __contains__(self, k):
        return self._find(k) is not None

    def __getitem__(self, k):
        q = self._find(k)
        if q is None:
            raise KeyError(k)
        return self.items_[q][1]

    def __setitem__(self, k, v):
        q = self._find(k)
        if q is None:
            self.items_.append((k, v))
        else:
            self.items_[q] = (k, v)

    def setdefault(self, k, v):
        q = self._find(k)
        if q is None:
            self.items_.append((k, v))
            return v
        return self.items_[q][1]


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    return bool(x == y)


@contract('C10', 'cached_1d', [F + 'convolveFFT'], assumes=FFT, bounded=False, timeout=120)
def _(c):
    """a history of convolutions sharing a cache: each equals the direct sum"""
    cv = c.module('getdist.convolve')
    stub_length(c)
    n = [c.dim('n%d' % k, small=(1, 3), hi=40) for k in range(3)]
    a = [c.array('a%d' % k, (n[k],)) for k in range(3)]
    if c.concrete and c.flag('views'):  # of one array, with the same size
        b = np.array(np.random.RandomState(c.int('views seed', 0, 10 ** 6)).randn(int(n[0]) + 3))
        n = [n[0]] * 3
        a = [b[k:k + n[0]] for k in range(3)]
    cache = {} if c.concrete else Cache()
    seq = c.option('calls', [[(0, 2), (1, 2)], [(0, 2), (0, 1)], [(0, 2), (2, 0)], [(0, 2), (0, 2)], [(0, 1), (1, 1)]])
    args = c.option('which', [(1, 2), (1,), (2,)])
    for q, (i, j) in enumerate(seq):
        x, y, nx, ny = a[i], a[j], n[i], n[j]
        sc = float(np.abs(x).sum() * np.abs(y).max()) if c.concrete else 0
        ls = 0 if q == 0 else c.int('largest', 0, 300)
        r = cv.convolveFFT(x, y, 'full', largest_size=ls, cache=cache, cache_args=args)
        c.check_arr('direct', r, (nx + ny - 1,), lambda k: direct(c, x, y, nx, ny, k), scale=sc)
    for k in range(3):
        c.check_arr('inputs', a[k], (n[k],), lambda i: c.at(a[k], i))


@contract('C10', 'cached_2d', [F + 'convolveFFTn', F + 'convolve2D'], assumes=FFT, bounded=False, timeout=160)
def _(c):
    cv = c.module('getdist.convolve')
    stub_length(c)
    n = [(c.dim('n%d' % k, hi=9), c.dim('m%d' % k, hi=9)) for k in range(3)]
    a = [c.array('a%d' % k, n[k]) for k in range(3)]
    if c.concrete and c.flag('views'):  # of one array, with the same shape
        b = np.array(np.random.RandomState(c.int('views seed', 0, 10 ** 6)).randn(int(n[0][0]) + 3, int(n[0][1]) + 3))
        n = [n[0]] * 3
        a = [b[k:k + n[0][0], 2 - k:2 - k + n[0][1]] for k in range(3)]
    cache = {} if c.concrete else Cache()
    seq = c.option('calls', [[(0, 2), (1, 2)], [(0, 2), (0, 1)], [(0, 2), (0, 2)]])
    args = c.option('which', [(1, 2), (1,), (2,)])
    for q, (p, s) in enumerate(seq):
        x, y, nx, ny = a[p], a[s], n[p], n[s]
        sc = float(np.abs(x).sum() * np.abs(y).max()) if c.concrete else 0
        r = cv.convolve2D(x, y, 'full', largest_size=0 if q == 0 else c.int('largest', 0, 60), cache=cache, cache_args=args)

        def ref(k, l):
            inside = lambda i, j: c.And(k - i >= 0, k - i < ny[0], l - j >= 0, l - j < ny[1])
            if c.concrete:
                return sum(x[i, j] * y[k - i, l - j] for i in range(nx[0]) for j in range(nx[1]) if inside(i, j))
            return c.sum(nx[0], lambda i: c.sum(nx[1], lambda j: c.ite(inside(i, j), c.at(x, i, j) * c.at(y, k - i, l - j), 0)))
        c.check_arr('direct', r, (nx[0] + ny[0] - 1, nx[1] + ny[1] - 1), ref, scale=sc)


@contract('C10', 'convolve_1d', [F + 'convolve1D'], symbolic=False, runs=150)
def _(c):
    """either side of the switch to FFTs"""
    cv = c.module('getdist.convolve')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    big = c.option('big', [0, 0, 0, 0, 1])
    nx = c.int('nx', 1, 80) if not big else c.int('nxb', 995, 1400)
    ny = c.int('ny', 1, 80) if not big else c.int('nyb', 995, 1400)
    mode = c.option('mode', ['full', 'same', 'valid'])
    if mode != 'full':
        nx, ny = max(nx, ny), min(nx, ny)
    x, y = r.randn(nx), r.randn(ny)
    full = [float(np.dot(x[max(0, k - ny + 1):k + 1], y[k - np.arange(max(0, k - ny + 1), min(nx, k + 1))])) for k in range(nx + ny - 1)]
    off, m = {'full': (0, nx + ny - 1), 'same': ((ny - 1) // 2, nx), 'valid': (ny - 1, nx - ny + 1)}[mode]
    cache = c.option('cache', [None, {}])
    if cache is not None:
        cache = {}
    for _ in range(2):
        got = cv.convolve1D(x, y, mode, largest_size=c.option('ls', [0, 3000]), cache=cache)
        c.check('direct', len(got) == m and np.allclose(got, full[off:off + m], atol=1e-9 * np.sqrt(nx * ny)))


@contract('C10', 'convolve_1d_any', [F + 'convolve1D'], bounded=False, concrete=False,
          assumes=['convolveFFT returns the direct sums (contracts fft_1d, cached_1d)', 'numpy.convolve(x, y, mode) is the direct sum; its same mode has the size of the longer argument'])
def _(c):
    """all sizes, on both sides of the size above which the transform is used; """
    cv = c.module('getdist.convolve')
    nx, ny = c.dim('nx'), c.dim('ny')
    c.assume(nx >= ny)
    x, y = c.array('x', (nx,)), c.array('y', (ny,))
    mode = c.option('mode', ['full', 'same', 'valid'])
    size, off = {'full': (nx + ny - 1, 0), 'same': (nx, (ny - 1) // 2), 'valid': (nx - ny + 1, ny - 1)}[mode]

    def conv(a, b, m='full'):
        na, nb = c.length(a), c.length(b)
        c.check('longer_first', na >= nb)
        sz, o = {'full': (na + nb - 1, 0), 'same': (na, (nb - 1) // 2), 'valid': (na - nb + 1, nb - 1)}[m]
        return c.new((sz,), lambda k: direct(c, a, b, na, nb, k + o))

    def fft(x, y, mode='same', yfft=None, xfft=None, largest_size=0, cache=None, cache_args=(1, 2)):
        c.check('no_transforms', yfft is None and xfft is None)
        return conv(x, y, mode)
    c.stub('getdist.convolve', 'convolveFFT', fft)
    c.library('convolve', conv)
    r = cv.convolve1D(x, y, mode) if c.flag('plain') else cv.convolve1D(x, y, mode, largest_size=c.int('largest', 0), cache={}, cache_args=[1])
    c.check_arr('direct', r, (size,), lambda k: direct(c, x, y, nx, ny, k + off))


@contract('C10', 'autocorrelation_any', [F + 'autoCorrelation'], bounded=False, concrete=False, assumes=['autoConvolve returns the autocovariance sums (contract auto_sums)'])
def _(c):
    cv = c.module('getdist.convolve')
    n = c.dim('n')
    x = c.array('x', (n,))

    def auto(x, n=None, normalize=True):
        N = c.length(x)
        n = N if n is None else n
        c.check('lags', c.And(n >= 1, n <= N))
        return c.new((n,), lambda k: c.sum(N, lambda i: c.ite(i + k < N, c.at(x, i) * c.at(x, i + k), 0)) / ((N - k) if normalize else 1))
    c.stub('getdist.convolve', 'autoConvolve', auto)
    mu = c.sum(n, lambda i: c.at(x, i)) / n
    cov = lambda k: c.sum(n, lambda i: c.ite(i + k < n, (c.at(x, i) - mu) * (c.at(x, i + k) - mu), 0)) / (n - k)
    c.assume(cov(0) > 0)
    m, kw = n, {}
    if c.flag('lags'):
        m = kw['n'] = c.int('m', 1)
        c.assume(m <= n)
    st = 0
    if c.flag('from'):
        st = kw['start_index'] = c.int('start', 0)
        c.assume(st < m)
    plain = c.flag('covariance')
    if plain:
        kw['normalized'] = False
    r = cv.autoCorrelation(x, **kw)
    c.check_arr('definition', r, (m - st,), lambda k: cov(k + st) / (1 if plain else cov(0)))


@contract('C10', 'auto_sums', [F + 'autoConvolve'], assumes=['scipy.fftpack.rfft packing and the Wiener-Khinchin theorem'], bounded=False)
def _(c):
    """autocovariance sums, for every length and number of lags"""
    cv = c.module('getdist.convolve')
    stub_length(c)
    nx = c.dim('n', hi=200)
    x = c.array('x', (nx,))
    norm = c.flag('normalize')
    if c.flag('all'):
        m, r = nx, cv.autoConvolve(x, normalize=norm)
    else:
        m = c.int('lags', 1, gen=lambda: c.rng.randint(1, int(nx)))
        c.assume(m <= nx)
        r = cv.autoConvolve(x, n=m, normalize=norm)
    sc = float(np.abs(x).sum() * np.abs(x).max()) if c.concrete else 0

    def ref(k):
        if c.concrete:
            t = float(np.dot(x[:nx - k], x[k:]))
        else:
            t = c.sum(nx, lambda i: c.ite(i + k < nx, c.at(x, i) * c.at(x, i + k), 0))
        return t / (nx - k) if norm else t
    c.check_arr('sums', r, (m,), ref, scale=sc)


@contract('C10', 'autocorrelation', [F + 'autoConvolve', F + 'autoCorrelation'], symbolic=False, runs=300)
def _(c):
    cv = c.module('getdist.convolve')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    nx = c.option('n', [c.int('a', 1, 12), c.int('b', 1, 300), c.int('p', 1, 3000) if c.flag('large') else 7])
    x = r.randn(nx) + r.randn()
    n = c.option('lags', [None, 1, nx, c.int('l', 1, nx)])
    m = n or nx
    s = np.array([np.dot(x[:nx - k], x[k:]) for k in range(m)])
    got = cv.autoConvolve(x, n, normalize=False)
    c.check('sums', len(got) == m and np.allclose(got, s, atol=1e-9 * nx))
    got = cv.autoConvolve(x, n)
    c.check('normalised', np.allclose(got, s / (nx - np.arange(m)), atol=1e-9 * nx))
    if nx > 1:
        y = x - x.mean()
        t = np.array([np.dot(y[:nx - k], y[k:]) / (nx - k) for k in range(m)])
        st = c.int('start', 0, m - 1)
        c.check('autocorrelation', np.allclose(cv.autoCorrelation(x, n, start_index=st), (t / t[0])[st:], atol=1e-8))
        c.check('defaults', np.allclose(cv.autoCorrelation(x), [np.dot(y[:nx - k], y[k:]) / (nx - k) / t[0] for k in range(nx)], atol=1e-8))
        c.check('autocovariance', np.allclose(cv.autoCorrelation(x, n, normalized=False, start_index=st), t[st:], atol=1e-8))


@contract('C10', 'gaussian', [F + 'convolveGaussian', F + 'convolveGaussianTrunc', F + 'convolveGaussianDCT'], symbolic=False, runs=200)
def _(c):
    """smoothing by a Gaussian: sums with a Gaussian kernel of the given width, with or without a cache"""
    cv = c.module('getdist.convolve')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    nx = c.int('n', 10, 120)
    x = r.rand(nx)
    sigma = c.option('sigma', [0.2, 1.0, 2.3, 5.5])
    cache = None if c.flag('nocache') else {}
    for rep in range(2):
        fill = int(4 * sigma)
        pts = np.arange(-fill, fill + 1)
        win = np.exp(-(pts / sigma) ** 2 / 2)
        win /= win.sum()
        full = np.zeros(nx + 2 * fill)
        for k, wt in enumerate(win):
            full[k:k + nx] += wt * x
        c.check('truncated_full', np.allclose(cv.convolveGaussianTrunc(x, sigma, mode='full', cache=cache), full, atol=1e-10))
        g = cv.convolveGaussianTrunc(x, sigma, mode='same', cache=cache)
        c.check('truncated_same', g.shape == (nx,) and np.allclose(g, full[fill:fill + nx], atol=1e-10))
        if nx > 2 * fill:
            g = cv.convolveGaussianTrunc(x, sigma, mode='valid', cache=cache)
            c.check('truncated_valid', g.shape == (nx - 2 * fill,) and np.allclose(g, full[2 * fill:nx], atol=1e-10))
        if sigma >= 1:
            c2 = None if cache is None else {}
            c.check('periodic', np.allclose(cv.convolveGaussian(x, sigma, cache=c2), full[fill:fill + nx], atol=2e-3))
            c3 = None if cache is None else {}
            c.check('cosine', np.allclose(cv.convolveGaussianDCT(x, sigma, cache=c3), full[fill:fill + nx], atol=2e-3))
            if nx > 2 * fill:
                g = cv.convolveGaussianDCT(x, sigma, mode='valid', cache=c3)
                c.check('cosine_valid', g.shape == (nx - 2 * fill,) and np.allclose(g, full[2 * fill:nx], atol=2e-3))
            # no padding: reflected at the ends
            ref = np.concatenate([x[::-1], x, x[::-1]])
            pt = np.arange(-nx, nx + 1)
            wf = np.exp(-(pt / sigma) ** 2 / 2)
            wf /= wf.sum()
            if 8 * sigma < nx:
                given = x.copy()
                g = cv.convolveGaussianDCT(x, sigma, pad_sigma=0, cache=c3)
                c.check('reflected', g.shape == (nx,) and np.allclose(g, np.convolve(ref, wf, 'same')[nx:2 * nx], atol=2e-3) and np.array_equal(x, given))
