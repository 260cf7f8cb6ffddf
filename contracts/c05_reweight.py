"""C05: reweighting and cooling apply exactly the stated likelihood change, up to one common factor"""
import numpy as np
from pyvc.api import contract
from contracts.common import ws

CH = 'getdist.chains:'
WS = CH + 'WeightedSamples.'


def two(c, n):
    i = c.int('i', 0, gen=lambda: c.rng.randrange(int(n)))
    j = c.int('j', 0, gen=lambda: c.rng.randrange(int(n)))
    c.assume(c.And(i < n, j < n))
    return i, j


def rest(c, b):
    c.check_arr('samples', b.s.samples, (b.n, b.p), b.x)
    c.check_eq('numrows', b.s.numrows, b.n)
    c.check_eq('norm', b.s.get_norm(), c.sum(b.n, lambda q: c.at(b.s.weights, q)))


@contract('C05', 'reweight_ratio', [WS + 'reweightAddingLogLikes'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    A = c.array('A', (b.n,))
    A2 = c.fresh_copy(A)
    b.s.reweightAddingLogLikes(A2)
    w = b.s.weights
    i, j = two(c, b.n)
    c.check_eq('ratio', c.at(w, i) * b.wt(j) * c.exp(-c.at(A, j)), c.at(w, j) * b.wt(i) * c.exp(-c.at(A, i)))
    c.check_arr('added_unchanged', A2, (b.n,), lambda q: c.at(A, q))
    if b.L is None:
        c.check_is('loglikes', b.s.loglikes, None)
    else:
        c.check_arr('loglikes', b.s.loglikes, (b.n,), lambda q: c.at(b.L, q) + c.at(A, q))
    rest(c, b)


@contract('C05', 'reweight_positive', [WS + 'reweightAddingLogLikes'])
def _(c):
    """the common factor is positive: no row with weight loses it and none gains any"""
    b = ws(c, c.dim('n'), c.dim('p', small=(1,)), like=c.flag('like'))
    A = c.array('A', (b.n,))
    b.s.reweightAddingLogLikes(c.fresh_copy(A))
    i, j = two(c, b.n)
    w = b.s.weights
    c.check('sign', c.Implies(b.wt(i) == 0, c.at(w, i) == 0))
    c.check('positive', c.Implies(b.wt(i) > 0, c.at(w, i) > 0))


@contract('C05', 'cool_ratio', [WS + 'cool'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    T = c.real('T', pos=True)
    if c.concrete:
        b.s.loglikes = b.s.loglikes / 30
        b.L = b.L / 30
    b.s.cool(T)
    w = b.s.weights
    i, j = two(c, b.n)
    L = lambda q: c.at(b.L, q)
    c.check_eq('ratio', c.at(w, i) * b.wt(j) * c.exp(-(L(j) * T - L(j))), c.at(w, j) * b.wt(i) * c.exp(-(L(i) * T - L(i))))
    c.check_arr('loglikes', b.s.loglikes, (b.n,), lambda q: L(q) * T)
    rest(c, b)


@contract('C05', 'cool_positive', [WS + 'cool'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p', small=(1,)))
    T = c.real('T', pos=True)
    if c.concrete:
        b.s.loglikes = b.s.loglikes / 30
    b.s.cool(T)
    i, j = two(c, b.n)
    w = b.s.weights
    c.check('sign', c.Implies(b.wt(i) == 0, c.at(w, i) == 0))
    c.check('positive', c.Implies(b.wt(i) > 0, c.at(w, i) > 0))


@contract('C05', 'frame', [WS + 'reweightAddingLogLikes', WS + 'cool'])
def _(c):
    """arrays the samples were built from, or shared with other sample sets, keep their values"""
    ch = c.module('getdist.chains')
    n, p = c.dim('n'), c.dim('p')
    X, w0, L0 = c.array('X', (n, p)), c.array('w', (n,), gen='weight', pred=lambda x: x > 0), c.array('L', (n,), gen=lambda r, d: r.normal(0, 1, d))
    w, L, A = c.fresh_copy(w0), c.fresh_copy(L0), c.array('A', (n,), gen=lambda r, d: r.normal(0, 1, d))
    s = ch.WeightedSamples(samples=X, weights=w, loglikes=L, min_weight_ratio=-1)
    other = ch.WeightedSamples(samples=X, weights=w, loglikes=L, min_weight_ratio=-1)
    if c.flag('cool'):
        s.cool(c.real('T', 0.5, 3))
    else:
        s.reweightAddingLogLikes(A)
    c.check_arr('weights', w, (n,), lambda q: c.at(w0, q))
    c.check_arr('loglikes', L, (n,), lambda q: c.at(L0, q))
    c.check_arr('shared_weights', other.weights, (n,), lambda q: c.at(w0, q))
    c.check_arr('shared_loglikes', other.loglikes, (n,), lambda q: c.at(L0, q))


@contract('C05', 'finite', [WS + 'reweightAddingLogLikes', WS + 'cool', 'getdist.mcsamples:MCSamples.readChains'], symbolic=False, runs=200,
          note='machine arithmetic: weights stay finite with a positive sum whatever the likelihood range')
def _(c):
    ch = c.module('getdist.chains')
    n = c.int('n', 2, 12)
    scale = c.option('scale', [1, 100, 3000, 1e5])
    off = c.option('off', [0, 1e4, -1e5])
    L = c.array('L', (n,), gen=lambda r, d: r.normal(0, 1, d)) * scale + off
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, 4, d).astype(c.option('dtype', [float, int])))
    s = ch.WeightedSamples(samples=np.arange(n, dtype=float)[:, None], weights=w.copy(), loglikes=L.copy(), min_weight_ratio=-1)
    T = c.option('T', [0.5, 0.9, 1.0, 2.0, 5.0])
    k = c.option('how', ['cool', 'add', 'both'])
    e = np.zeros(n)
    if k != 'add':
        s.cool(T)
        e = e + (T - 1) * L
    if k != 'cool':
        A = c.array('A', (n,), gen=lambda r, d: r.normal(0, 1, d)) * scale + off
        s.reweightAddingLogLikes(A.copy())
        e = e + A
    W = s.weights
    c.check('finite', np.all(np.isfinite(W)), str(W))
    if k != 'both':
        c.check('positive_total', W.sum() > 0, str(W))
        lw = np.log(w) - e
        lw -= lw.max()
        got = W / W.max()
        c.check('weights', np.allclose(got, np.exp(lw), rtol=1e-6, atol=1e-12), '%s %s' % (got, np.exp(lw)))
    c.check_eq('norm', s.get_norm(), W.sum())


@contract('C05', 'mcsamples', ['getdist.mcsamples:MCSamples.updateBaseStatistics', WS + 'reweightAddingLogLikes'], symbolic=False, runs=60)
def _(c):
    """statistics of importance-weighted samples are those of the product weights, for every class and integer or real weights"""
    import logging
    logging.disable(logging.CRITICAL)
    chm = c.module('getdist.chains')
    chm.print_load_details = False
    n = c.int('n', 20, 60)
    X = c.array('X', (n, 2), gen=lambda r, d: r.normal(0, 1, d))
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, 4, d).astype(float))
    L = (X ** 2).sum(1) / 2
    cls = c.option('cls', ['Chains', 'MCSamples'])
    kw = dict(samples=X.copy(), weights=w.copy(), loglikes=L.copy(), names=['a', 'b'])
    if cls == 'MCSamples':
        s = c.module('getdist.mcsamples').MCSamples(ignore_rows=0, settings={'min_weight_ratio': -1}, **kw)
    else:
        s = chm.Chains(min_weight_ratio=-1, **kw)
    e = np.zeros(n)
    for t in range(c.int('ops', 1, 3)):
        s.getVars(), s.getMeans()
        if c.flag('cool%d' % t):
            T = c.option('T%d' % t, [0.5, 1.5, 2])
            e += (T - 1) * (L)
            s.cool(T)
            L = L * T
        else:
            A = 0.3 * (X[:, 1] - 0.2 * t) ** 2
            e += A
            s.reweightAddingLogLikes(A)
            L = L + A
    W = w * np.exp(-(e - e.min()))
    c.check_arr('mean', s.getMeans(), (2,), lambda j: np.average(X[:, j], weights=W))
    c.check_eq('byname', s.mean('b'), np.average(X[:, 1], weights=W))
    c.check_arr('loglikes', s.loglikes, (n,), lambda i: L[i])
    c.check_eq('mean_loglike', s.mean_loglike, np.average(L, weights=W))
