"""C07: sample quantiles bracket the requested tail weight"""
import numpy as np
from pyvc.api import contract
from contracts.common import ws

CH = 'getdist.chains:'
WS = CH + 'WeightedSamples.'


def bracket(c, tag, n, x, w, v, f, W, k=0):
    """v is a sample value; weight at or below it >= f W, weight strictly below it <= f W"""
    if c.mode == 'proof':
        v = c.name('v', v)
    le = lambda i: c.ite(x(i) <= v, w(i), 0)
    lt = lambda i: c.ite(x(i) < v, w(i), 0)
    if c.mode == 'proof':
        N, pi, inv = perm = c.ghost('perms')
        from pyvc.core import wrap, lift
        P = lambda p: wrap(pi(lift(p)))
        ix = wrap(c.ghost('ss', k))
        last = c.name('last', c.ite(ix < n, ix, n - 1))
        ws_ = c.new((n,), lambda p: w(P(p)))
        c.permuted_sum(perm, le)
        c.permuted_sum(perm, lt)
        c.permuted_sum(perm, w)
        c.prefix_is_sum(ws_, last + 1)
        c.prefix_is_sum(ws_, last)
        c.sums_le(tag + '.at_or_below', n, lambda p: c.ite(p < last + 1, w(P(p)), 0), lambda p: le(P(p)))
        c.sums_le(tag + '.below', n, lambda p: lt(P(p)), lambda p: c.ite(p < last, w(P(p)), 0))
    tol = 1e-9 * W if c.concrete else 0
    c.check(tag + '.lower', c.sum(n, le) >= f * W - tol)
    c.check(tag + '.upper', c.sum(n, lt) <= f * W + tol)
    if c.concrete:
        c.check(tag + '.value', any(x(i) == v for i in range(int(n))))
    elif c.mode == 'proof':
        q = wrap(pi(lift(last)))
        c.check(tag + '.value', c.And(q >= 0, q < n, x(q) == v))
    else:
        c.check(tag + '.value', c.Or(*[x(i) == v for i in range(n)]))


def data(c, small=(1, 2, 3)):
    ch = c.module('getdist.chains')
    n = c.dim('n', small=small)
    x = c.array('x', (n,), gen=lambda r, d: r.randint(0, 6, d) * 0.5 if c.flag('ties') else r.normal(0, 1, d))
    w = c.array('w', (n,), gen=lambda r, d: r.randint(0, 4, d).astype(float), pred=lambda t: t >= 0)
    W = c.sum(n, lambda i: c.at(w, i))
    c.assume(W > 0)
    s = ch.WeightedSamples(samples=c.fresh_copy(x)[:, None], weights=c.fresh_copy(w), min_weight_ratio=-1)
    return s, n, x, w, W


def frac(c, name='f'):
    return c.real(name, 0, 1, gen=lambda: c.rng.choice([0, 1, 0.5, 0.25, 0.025, 0.05, 0.16, c.rng.random(), c.rng.random()]))


@contract('C07', 'lower', [WS + 'confidence', WS + 'initParamConfidenceData'])
def _(c):
    s, n, x, w, W = data(c)
    f = frac(c)
    how = c.option('par', ['index', 'vector', 'data'])
    par = 0 if how == 'index' else c.fresh_copy(x)
    if how == 'data':
        par = s.initParamConfidenceData(par)
    v = s.confidence(par, f)
    bracket(c, 'limit', n, lambda i: c.at(x, i), lambda i: c.at(w, i), v, f, W)


@contract('C07', 'upper', [WS + 'confidence', WS + 'initParamConfidenceData'])
def _(c):
    s, n, x, w, W = data(c)
    f = frac(c)
    v = s.confidence(0, f, upper=True)
    bracket(c, 'limit', n, lambda i: c.at(x, i), lambda i: c.at(w, i), v, 1 - f, W)


@contract('C07', 'row_range', [WS + 'confidence', WS + 'initParamConfidenceData'])
def _(c):
    """only rows start..end, with the weights of those rows"""
    s, n, x, w, W = data(c, small=(2, 3))
    a = c.int('start', 0, gen=lambda: c.rng.randrange(int(n)))
    b = c.int('end', 1, gen=lambda: c.rng.randint(1, int(n)))
    c.assume(c.And(a < b, b <= n))
    if c.mode == 'bounded':
        c.assume(c.And(a <= 1, b == n))
        for k in (0, 1):      # case split
            if c.ctx.branch((a == k).t):
                a = k
                break
        b = n
    m = b - a
    X, Wt = (lambda i: c.at(x, i + a)), (lambda i: c.at(w, i + a))
    W = c.sum(m, Wt)
    c.assume(W > 0)
    f = frac(c)
    v = s.confidence(0, f, start=a, end=b)
    bracket(c, 'limit', m, X, Wt, v, f, W)


@contract('C07', 'other_weights', [WS + 'confidence', WS + 'initParamConfidenceData'])
def _(c):
    s, n, x, w, W = data(c)
    u = c.array('u', (n,), gen=lambda r, d: r.randint(0, 4, d).astype(float), pred=lambda t: t >= 0)
    U = c.sum(n, lambda i: c.at(u, i))
    c.assume(U > 0)
    f = frac(c)
    v = s.confidence(0, f, weights=c.fresh_copy(u))
    bracket(c, 'limit', n, lambda i: c.at(x, i), lambda i: c.at(u, i), v, f, U)


@contract('C07', 'two_tail', [WS + 'twoTailLimits', WS + 'confidence'])
def _(c):
    s, n, x, w, W = data(c)
    p = frac(c, 'p')
    v = s.twoTailLimits(0, p)
    c.check('two', c.length(v) == 2)
    for k, f in enumerate([(1 - p) / 2, (1 + p) / 2]):
        bracket(c, ['low', 'high'][k], n, lambda i: c.at(x, i), lambda i: c.at(w, i), c.at(v, k), f, W, k=k)


@contract('C07', 'tables', ['getdist.mcsamples:MCSamples.getMargeStats', 'getdist.mcsamples:MCSamples._setMargeLimits', WS + 'confidence'], symbolic=False, runs=25)
def _(c):
    """two-tail marginalised limits of the results table are the sample quantiles"""
    chm = c.module('getdist.chains')
    chm.print_load_details = False
    n = c.int('n', 60, 200)
    X = c.array('X', (n, 2), gen=lambda r, d: r.normal(0, 1, d))
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, 5, d).astype(float))
    ct = c.option('contours', ['0.68 0.95 0.99', '0.5 0.9', '0.95'])
    m = c.module('getdist.mcsamples').MCSamples(samples=X.copy(), weights=w.copy(), names=['a', 'b'], ignore_rows=0,
                                                settings={'min_weight_ratio': -1, 'force_twotail': True, 'contours': ct, 'credible_interval_threshold': 1e9})
    st = m.getMargeStats()
    W = w.sum()
    for j, nm in enumerate('ab'):
        par = st.parWithName(nm)
        for k, p in enumerate(float(q) for q in ct.split()):
            L = par.limits[k]
            c.check('two_tail', L.twotail and not L.onetail_upper and not L.onetail_lower)
            x = X[:, j]
            for v, f in ((L.lower, (1 - p) / 2), (L.upper, (1 + p) / 2)):
                c.check('value', np.any(x == v), '%s' % v)
                c.check('at_or_below', w[x <= v].sum() >= f * W * (1 - 1e-9))
                c.check('below', w[x < v].sum() <= f * W * (1 + 1e-9))
