"""shared input builders for the contracts"""


class Box:
    pass


def ws(c, n, p, like=True, wpred=None, wgen='weight', name='', kind='r', positive=False):
    """an arbitrary weighted sample set: n rows, p parameters, non-negative weights with positive sum"""
    ch = c.module('getdist.chains')
    b = Box()
    b.n, b.p = n, p
    b.X = c.array(name + 'X', (n, p))
    b.w = c.array(name + 'w', (n,), gen=wgen, pred=wpred or ((lambda x: x > 0) if positive else (lambda x: x >= 0)))
    b.L = c.array(name + 'L', (n,)) if like else None
    b.W = c.sum(n, lambda i: c.at(b.w, i))
    c.assume(b.W > 0)
    b.s = ch.WeightedSamples(samples=c.fresh_copy(b.X), weights=c.fresh_copy(b.w),
                             loglikes=c.fresh_copy(b.L) if like else None, min_weight_ratio=-1)
    c.track(b.s)
    b.x = lambda i, j: c.at(b.X, i, j)
    b.wt = lambda i: c.at(b.w, i)
    b.mean = lambda j: c.sum(n, lambda i: b.wt(i) * b.x(i, j)) / b.W
    b.cov = lambda j, k: c.sum(n, lambda i: b.wt(i) * (b.x(i, j) - b.mean(j)) * (b.x(i, k) - b.mean(k))) / b.W
    return b


def mask(c, b):
    """a boolean selection of rows with positive total weight; masked moments"""
    b.B = c.array('B', (b.n,), kind='b')
    sel = lambda i, v: c.ite(c.at(b.B, i), v, 0)
    b.Wb = c.sum(b.n, lambda i: sel(i, b.wt(i)))
    c.assume(b.Wb > 0)
    b.bmean_f = lambda f: c.sum(b.n, lambda i: sel(i, b.wt(i) * f(i))) / b.Wb
    b.bmean = lambda j: b.bmean_f(lambda i: b.x(i, j))

    def bcov(j, k):
        return c.sum(b.n, lambda i: sel(i, b.wt(i) * (b.x(i, j) - b.bmean(j)) * (b.x(i, k) - b.bmean(k)))) / b.Wb
    b.bcov = bcov
    b.sel = sel
    return b
