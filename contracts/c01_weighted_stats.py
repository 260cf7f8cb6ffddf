"""C01: weighted statistics equal their definitions for every sample set"""
from pyvc.api import contract
from pyvc.specs import LoopSpec, loopspec
from contracts.common import ws, mask

CH = 'getdist.chains:'


def par(c, b):
    j = c.int('j', 0, gen=lambda: c.rng.randrange(int(b.p)))
    c.assume(j < b.p)
    return j


@contract('C01', 'weighted_sum', [CH + 'WeightedSamples.weighted_sum', CH + 'WeightedSamples._makeParamvec'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    j = par(c, b)
    c.check_eq('sum', b.s.weighted_sum(j), c.sum(b.n, lambda i: b.wt(i) * b.x(i, j)))
    v = c.array('v', (b.n,))
    c.check_eq('sum_vector', b.s.weighted_sum(v), c.sum(b.n, lambda i: b.wt(i) * c.at(v, i)))


@contract('C01', 'weighted_sum_where', [CH + 'WeightedSamples.weighted_sum', CH + 'WeightedSamples.get_norm'])
def _(c):
    b = mask(c, ws(c, c.dim('n'), c.dim('p')))
    j = par(c, b)
    c.check_eq('sum', b.s.weighted_sum(j, b.B), c.sum(b.n, lambda i: b.sel(i, b.wt(i) * b.x(i, j))))
    c.check_eq('norm', b.s.get_norm(b.B), b.Wb)


@contract('C01', 'get_norm', [CH + 'WeightedSamples.get_norm', CH + 'WeightedSamples._weightsChanged'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    c.check_eq('norm', b.s.get_norm(), b.W)
    c.check_eq('norm_attr', b.s.norm, b.W)


@contract('C01', 'unit_weights', [CH + 'WeightedSamples.setSamples', CH + 'WeightedSamples._weightsChanged'])
def _(c):
    ch = c.module('getdist.chains')
    n, p = c.dim('n'), c.dim('p')
    X = c.array('X', (n, p))
    s = ch.WeightedSamples(samples=c.fresh_copy(X), min_weight_ratio=-1)
    j = c.int('j', 0, gen=lambda: c.rng.randrange(int(p)))
    c.assume(j < p)
    c.check_eq('norm', s.get_norm(), n)
    c.check_arr('weights', s.weights, (n,), lambda i: 1)
    c.check_eq('mean', s.mean(j), c.sum(n, lambda i: c.at(X, i, j)) / n)


@contract('C01', 'mean', [CH + 'WeightedSamples.mean'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    j = par(c, b)
    c.check_eq('mean', b.s.mean(j), b.mean(j))
    v = c.array('v', (b.n,))
    c.check_eq('mean_vector', b.s.mean(v), c.sum(b.n, lambda i: b.wt(i) * c.at(v, i)) / b.W)


@contract('C01', 'mean_where', [CH + 'WeightedSamples.mean'])
def _(c):
    b = mask(c, ws(c, c.dim('n'), c.dim('p')))
    j = par(c, b)
    c.check_eq('mean', b.s.mean(j, b.B), b.bmean(j))


@contract('C01', 'mean_list', [CH + 'WeightedSamples.mean'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p', lo=2, small=(2, 3)))
    use = c.flag('where')
    if use:
        mask(c, b)
    m = b.s.mean([0, 1], b.B if use else None)
    c.check_arr('mean', m, (2,), (lambda j: b.bmean(j)) if use else (lambda j: b.mean(j)))


@contract('C01', 'var', [CH + 'WeightedSamples.var', CH + 'WeightedSamples.mean_diff'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    j = par(c, b)
    c.check_eq('var', b.s.var(j), b.cov(j, j))
    if c.flag('after_diffs'):
        b.s.setDiffs()
        c.check_eq('var_cached', b.s.var(j), b.cov(j, j))


@contract('C01', 'var_where', [CH + 'WeightedSamples.var', CH + 'WeightedSamples.mean_diff'])
def _(c):
    b = mask(c, ws(c, c.dim('n'), c.dim('p')))
    j = par(c, b)
    c.check_eq('var', b.s.var(j, b.B), b.bcov(j, j))


@contract('C01', 'var_list', [CH + 'WeightedSamples.var'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p', lo=2, small=(2, 3)))
    use = c.flag('where')
    if use:
        mask(c, b)
    m = b.s.var([0, 1], b.B if use else None)
    c.check_arr('var', m, (2,), (lambda j: b.bcov(j, j)) if use else (lambda j: b.cov(j, j)))


@contract('C01', 'std', [CH + 'WeightedSamples.std'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    j = par(c, b)
    if c.flag('where'):
        mask(c, b)
        c.check_eq('std', b.s.std(j, b.B), c.sqrt(b.bcov(j, j)))
    else:
        c.check_eq('std', b.s.std(j), c.sqrt(b.cov(j, j)))


@contract('C01', 'mean_diff', [CH + 'WeightedSamples.mean_diff'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    j = par(c, b)
    c.check_arr('diff', b.s.mean_diff(j), (b.n,), lambda i: b.x(i, j) - b.mean(j))
    b.s.setDiffs()
    c.check_arr('diff_cached', b.s.mean_diff(j), (b.n,), lambda i: b.x(i, j) - b.mean(j))


@contract('C01', 'mean_diffs', [CH + 'WeightedSamples.mean_diffs', CH + 'WeightedSamples.setDiffs'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    d = b.s.mean_diffs()
    k = par(c, b)
    c.check_eq('count', c.length(d), b.p)
    c.check_arr('diff', d[k], (b.n,), lambda i: b.x(i, k) - b.mean(k))


@contract('C01', 'setMeans', [CH + 'WeightedSamples.setMeans', CH + 'WeightedSamples.getMeans'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    c.check_arr('means', b.s.getMeans(), (b.p,), lambda j: b.mean(j))
    c.check_arr('means_again', b.s.getMeans(), (b.p,), lambda j: b.mean(j))
    if b.L is not None:
        c.check_eq('mean_loglike', b.s.mean_loglike, c.sum(b.n, lambda i: b.wt(i) * c.at(b.L, i)) / b.W)
    else:
        c.check_is('mean_loglike_none', b.s.mean_loglike, None)


@contract('C01', 'getMeans_pars', [CH + 'WeightedSamples.getMeans'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p', lo=3, small=(3,)))
    pars = c.option('pars', [[0, 2], [2, 1], [1], [0, 1, 2]])
    c.check_arr('means', b.s.getMeans(pars), (len(pars),), lambda j: b.mean(pars[int(j)]))


@contract('C01', 'getVars', [CH + 'WeightedSamples.getVars'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    if c.flag('means_first'):
        b.s.setMeans()
    c.check_arr('vars', b.s.getVars(), (b.p,), lambda j: b.cov(j, j))
    c.check_arr('sddev', b.s.sddev, (b.p,), lambda j: c.sqrt(b.cov(j, j)))


@contract('C01', 'cov', [CH + 'WeightedSamples.cov', CH + 'WeightedSamples.mean_diffs'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    c.check_arr('cov', b.s.cov(), (b.p, b.p), lambda j, k: b.cov(j, k))


@contract('C01', 'cov_where', [CH + 'WeightedSamples.cov', CH + 'WeightedSamples.mean_diffs'])
def _(c):
    b = mask(c, ws(c, c.dim('n'), c.dim('p')))
    c.check_arr('cov', b.s.cov(where=b.B), (b.p, b.p), lambda j, k: b.bcov(j, k))


@contract('C01', 'cov_pars', [CH + 'WeightedSamples.cov'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p', lo=3, small=(3,)))
    pars = c.option('pars', [[0, 2], [2, 1], [1], [2, 0, 1]])
    use = c.flag('where')
    if use:
        mask(c, b)
    f = b.bcov if use else b.cov
    c.check_arr('cov', b.s.cov(pars, b.B if use else None), (len(pars), len(pars)),
                lambda j, k: f(pars[int(j)], pars[int(k)]))


@contract('C01', 'getCov', [CH + 'WeightedSamples.getCov', CH + 'WeightedSamples._setCov'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p', lo=2, small=(2, 3)))
    m = c.int('m', 1, gen=lambda: c.rng.randint(1, int(b.p)))
    c.assume(m <= b.p)
    c.check_arr('full', b.s.getCov(), (b.p, b.p), lambda j, k: b.cov(j, k))
    c.check_arr('first', b.s.getCov(m), (m, m), lambda j, k: b.cov(j, k))


@contract('C01', 'getCov_pars', [CH + 'WeightedSamples.getCov'])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p', lo=3, small=(3,)))
    pars = c.option('pars', [[0, 2], [2, 1], [1], [2, 0, 1]])
    c.check_arr('cov', b.s.getCov(pars=pars), (len(pars), len(pars)), lambda j, k: b.cov(pars[int(j)], pars[int(k)]))


def psd(r, d):
    A = r.normal(0, 1, d)
    if r.rand() < 0.4:
        A[r.randint(d[0])] = 0
    return A.dot(A.T)


def posdiag(c, b):
    """every parameter varies"""
    c.assume_all(b.p, lambda j: b.cov(j, j) > 1e-9 if c.concrete else b.cov(j, j) > 0)


@loopspec('getdist.chains', 'covToCorr', 0)
class CovToCorr(LoopSpec):
    """after k rows: cov[a,b] = cov0[a,b] / d(a) / d(b), with d(i) = sqrt(cov0[i,i]) if i<k and nonzero, else 1"""

    def closed(self, loop, k):
        import z3
        from pyvc import core
        f = loop.cov0

        def d(i):
            r = core.ufun('sqrt', f(i, i))
            return z3.If(z3.And(i < k, r != 0), r, z3.RealVal(1))
        return lambda a, b: core.div(core.div(f(a, b), d(a)), d(b))

    def invariant(self, loop, st, k):
        a = st['cov']
        if not hasattr(loop, 'cov0'):
            loop.cov0 = a._fn
        from pyvc.core import cur
        i, j = cur().index('i'), cur().index('j')
        import z3
        n = a.axes[0].n
        return [('cov', z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n), a.elem(i, j) == self.closed(loop, k)(i, j)))]

    def havoc(self, loop, st):
        loop.st_cov = st['cov']
        loop.modifies = [st['cov']]
        st['cov']._fn = self.closed(loop, loop.k)
        return {}


@contract('C01', 'covToCorr', [CH + 'covToCorr'])
def _(c):
    ch = c.module('getdist.chains')
    p = c.dim('p')
    C = c.array('C', (p, p), gen=psd)
    cc = c.fresh_copy(C)
    c.assume_all(p, lambda j: c.at(C, j, j) >= 0)
    copy = c.flag('copy')
    d = lambda j: c.ite(c.at(C, j, j) == 0, 1, c.sqrt(c.at(C, j, j)))
    r = ch.covToCorr(cc, copy) if not copy or c.flag('kw') else ch.covToCorr(cc)
    c.check_arr('corr', r, (p, p), lambda j, k: c.at(C, j, k) / (d(j) * d(k)))
    if copy:
        c.check_arr('input_unchanged', cc, (p, p), lambda j, k: c.at(C, j, k))


def cov_contract(c, b, pars, where):
    """the contract proved above (contract 'cov')"""
    from pyvc.core import Unsupported
    if pars is not None or where is not None:
        raise Unsupported('cov contract: full covariance only')
    return c.new((b.p, b.p), lambda j, k: b.cov(j, k))


def covToCorr_contract(c, cov, copy=True):
    """the contract proved above, for callers: requires a non-negative diagonal"""
    from pyvc.core import Unsupported
    if copy is not True:
        raise Unsupported('covToCorr in place')
    cov = cov.copy()
    c.check('covToCorr.requires', c.forall(cov.shape[0], lambda j: c.at(cov, j, j) >= 0))
    d = lambda j: c.ite(c.at(cov, j, j) == 0, 1, c.sqrt(c.at(cov, j, j)))
    return c.new(cov.shape, lambda j, k: c.at(cov, j, k) / (d(j) * d(k)))


@contract('C01', 'correlation', [CH + 'WeightedSamples.corr', CH + 'WeightedSamples.getCorrelationMatrix', CH + 'covToCorr'],
          timeout=60)
def _(c):
    b = ws(c, c.dim('n', lo=2, small=(2,)), c.dim('p', small=(1, 2)))
    posdiag(c, b)
    c.stub('getdist.chains', 'covToCorr', lambda cov, copy=True: covToCorr_contract(c, cov, copy))
    c.stub('getdist.chains', 'cov', lambda self, pars=None, where=None: cov_contract(c, b, pars, where), owner='WeightedSamples')
    f = lambda j, k: b.cov(j, k) / (c.sqrt(b.cov(j, j)) * c.sqrt(b.cov(k, k)))
    c.check_arr('corr', b.s.corr(), (b.p, b.p), f, rtol=1e-6)
    c.check_arr('getCorrelationMatrix', b.s.getCorrelationMatrix(), (b.p, b.p), f, rtol=1e-6)
    c.check_arr('cov_unchanged', b.s.getCov(), (b.p, b.p), lambda j, k: b.cov(j, k))
