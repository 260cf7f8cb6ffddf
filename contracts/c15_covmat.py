"""C15: covariance matrices keep names and entries together"""
import os
import tempfile
import numpy as np
from pyvc.api import contract
from pyvc.specs import LoopSpec, loopspec
from contracts.c09_kde import mc

K = 'getdist.covmat:CovMat.'
M = 'getdist.mcsamples:MCSamples.'


class Names:
    """the parameter names of a covariance of any size: the asked-for name has one (arbitrary) position"""

    def __init__(self, n, k):
        self.n, self.k = n, k

    def __contains__(self, x):
        return x == 'x'

    def index(self, x):
        return self.k

    def __slen__(self):
        return self.n


@loopspec('getdist.covmat', 'CovMat.correlation', 0)
class Corr(LoopSpec):
    """after k rows: m[a,b] = cov[a,b] / d(a) / d(b), with d(i) = sqrt(cov[i,i]) if i<k else 1"""

    def closed(self, loop, k):
        import z3
        from pyvc import core
        f = loop.m0
        d = lambda i: z3.If(i < k, core.ufun('sqrt', f(i, i)), z3.RealVal(1))
        return lambda a, b: core.div(core.div(f(a, b), d(a)), d(b))

    def invariant(self, loop, st, k):
        import z3
        from pyvc.core import cur
        a = st['m']
        if not hasattr(loop, 'm0'):
            loop.m0 = a._fn
        i, j = cur().index('i'), cur().index('j')
        n = a.axes[0].n
        return [('m', z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n), a.elem(i, j) == self.closed(loop, k)(i, j)))]

    def havoc(self, loop, st):
        loop.modifies = [st['m']]
        st['m']._fn = self.closed(loop, loop.k)
        return {}


def psd(r, d):
    A = r.normal(0, 1, d) * 10 ** r.uniform(-4, 4, (d[0], 1))
    return A.dot(A.T)


@contract('C15', 'correlation', [K + 'correlation', K + '__init__'])
def _(c):
    """entry (a,b) of the correlation is cov(a,b)/sqrt(cov(a,a) cov(b,b)); the covariance is left alone"""
    m = c.module('getdist.covmat')
    p = c.dim('p')
    C = c.array('C', (p, p), gen=psd)
    c.assume_all(p, lambda j: c.at(C, j, j) > 0)
    mine = c.fresh_copy(C)
    cov = m.CovMat(matrix=mine, paramNames=['x'] * p if c.concrete else Names(p, None))
    r = cov.correlation()
    c.check_arr('corr', r, (p, p), lambda j, k: c.at(C, j, k) / (c.sqrt(c.at(C, j, j)) * c.sqrt(c.at(C, k, k))))
    c.check_arr('covariance', cov.matrix, (p, p), lambda j, k: c.at(C, j, k))


@contract('C15', 'rescale', [K + 'rescaleParameter'], assumes=['list.index gives the position of the name'])
def _(c):
    """cov(a,b) gains one factor for each of a, b that is the parameter"""
    m = c.module('getdist.covmat')
    p = c.dim('p')
    C = c.array('C', (p, p), gen=psd)
    k = c.int('k', 0, p - 1)
    f = c.real('scale')
    names = Names(p, k) if not c.concrete else ['y%d' % i if i != k else 'x' for i in range(p)]
    cov = m.CovMat(matrix=c.fresh_copy(C), paramNames=names)
    cov.rescaleParameter('x', f)
    w = lambda j: c.ite(j == k, f, 1)
    c.check_arr('entries', cov.matrix, (p, p), lambda i, j: c.at(C, i, j) * w(i) * w(j))
    c.check_is('names', cov.paramNames, names)
    before = cov.matrix.copy()
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        cov.rescaleParameter('absent', f)
    c.check_arr('absent', cov.matrix, (p, p), lambda i, j: c.at(before, i, j))


LISTS = [(['a', 'b'], ['b', 'c']), (['a'], ['c', 'a', 'b']), (['b', 'a', 'c'], ['d', 'c']), (['a', 'b'], ['a', 'b']), (['a'], ['b']), (['c', 'b', 'a'], ['a', 'd', 'b'])]


@contract('C15', 'merge', [K + 'mergeCovmatWhereNew', K + '__init__'], proof=False, note='entries arbitrary; name lists: %d overlap patterns up to three names each' % len(LISTS))
def _(c):
    """the merged covariance has every name once, first those of the first; entries come from the first where it has both names, else from the second, else 0"""
    m = c.module('getdist.covmat')
    n1, n2 = c.option('names', LISTS)
    if c.concrete and c.flag('random'):
        pool = ['p%d' % i for i in range(8)]
        c.rng.shuffle(pool)
        n1 = c._in('n1', lambda: list(pool[:c.rng.randint(1, 6)]))
        c.rng.shuffle(pool)
        n2 = c._in('n2', lambda: list(pool[:c.rng.randint(1, 6)]))
    A = c.array('A', (len(n1), len(n1)))
    B = c.array('B', (len(n2), len(n2)))
    a = m.CovMat(matrix=c.fresh_copy(A), paramNames=list(n1))
    b = m.CovMat(matrix=c.fresh_copy(B), paramNames=list(n2))
    r = a.mergeCovmatWhereNew(b)
    names = n1 + [x for x in n2 if x not in n1]
    c.check('names', list(r.paramNames) == names)
    c.check('size', r.size == len(names))

    def want(i, j):
        x, y = names[int(i)], names[int(j)]
        for l, Q in ((n1, A), (n2, B)):
            if x in l and y in l:
                return c.at(Q, l.index(x), l.index(y))
        return 0
    c.check('shape', tuple(int(k) for k in r.matrix.shape) == (len(names), len(names)))
    for i in range(len(names)):
        for j in range(len(names)):
            c.check_eq('entry', c.at(r.matrix, i, j), want(i, j))
    c.check('inputs', a.paramNames == n1 and b.paramNames == n2)
    c.check_arr('first', a.matrix, (len(n1), len(n1)), lambda i, j: c.at(A, i, j))
    c.check_arr('second', b.matrix, (len(n2), len(n2)), lambda i, j: c.at(B, i, j))
    # the result is separate
    r.rescaleParameter(names[0], 2.0)
    c.check_arr('separate', a.matrix, (len(n1), len(n1)), lambda i, j: c.at(A, i, j))


@contract('C15', 'file', [K + 'saveToFile', K + 'loadFromFile', K + 'paramNameString', K + 'correlation', K + 'rescaleParameter', K + 'mergeCovmatWhereNew'], symbolic=False, runs=300)
def _(c):
    """names and entries read back; later operations act on the loaded matrix as on the saved one"""
    m = c.module('getdist.covmat')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    p = c.int('p', 1, 6)
    pool = ['omegabh2', 'é', 'theta[0]', 'A.x', 'H0', 'ns', '#x', 'p1', 'p10', '5']
    c.rng.shuffle(pool)
    names = c._in('order', lambda: list(pool))[:p]
    C = psd(r, (p, p))
    cov = m.CovMat(matrix=C.copy(), paramNames=list(names))
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'x.covmat')
        cov.saveToFile(fn)
        c.check('unchanged', np.array_equal(cov.matrix, C) and cov.paramNames == names)
        e = m.CovMat(fn)
        w = np.array([[float('%.7e' % x) for x in row] for row in C])
        c.check('names', e.paramNames == names)
        c.check('size', e.size == p)
        c.check('matrix', e.matrix.shape == (p, p) and np.array_equal(e.matrix, w), lambda: '%s %s' % (e.matrix, w))
        c.check('corr', np.allclose(e.correlation(), C / np.sqrt(np.outer(C.diagonal(), C.diagonal())), rtol=1e-5, atol=1e-6))
        k = c.int('k', 0, p - 1)
        e.rescaleParameter(names[k], 3.0)
        f = np.ones(p)
        f[k] = 3
        c.check('rescaled', np.allclose(e.matrix, w * np.outer(f, f), rtol=1e-12))
        e.saveToFile(fn)
        g = m.CovMat(fn)
        c.check('again', g.paramNames == names and np.allclose(g.matrix, e.matrix, rtol=1e-6))
        # merged, saved and read: correlations use every row
        other = m.CovMat(matrix=np.diag([4.0, 9.0]), paramNames=['new1', names[-1]])
        q = g.mergeCovmatWhereNew(other)
        c.check('merged_corr', np.allclose(q.correlation().diagonal(), 1))
        q.saveToFile(fn)
        c.check('merged_file', m.CovMat(fn).paramNames == names + ['new1'])
        with open(fn, 'w', encoding=c.option('enc', ['utf-8', 'utf-8-sig'])) as f:
            f.write(c.option('hash', ['#a', '#  a', '# a']) + c.option('gap', [' ', '  ', '\t']) + 'b\n1 2\n2 5\n')
        e = m.CovMat(fn)
        c.check('spacing', e.paramNames == ['a', 'b'] and e.size == 2 and np.array_equal(e.matrix, [[1, 2], [2, 5]]))
        with open(fn, 'w') as f:
            f.write('1 2\n2 5\n')
        c.check('header', c.raises(Exception, lambda: m.CovMat(fn)))


@contract('C15', 'samples', [M + 'getCovMat', M + 'writeCovMatrix', M + 'writeCorrelationMatrix'], symbolic=False, runs=120)
def _(c):
    """the covariance of a sample set has the non-derived parameters, each pair with its own entry, and is separate from the samples"""
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    p = c.int('p', 1, 5)
    derived = [c.flag('derived%d' % i) for i in range(p)]
    if all(derived):
        derived[0] = False
    names = ['q%d' % i for i in range(p)]
    x = r.randn(30, p).dot(r.randn(p, p)) + r.randn(p)
    w = r.randint(1, 4, 30) * 1.0
    s = mc(c, x, w, names=[n + ('*' if q else '') for n, q in zip(names, derived)])
    run = [i for i in range(p) if not derived[i]]
    if c.flag('add'):
        s.addDerived(x[:, 0] * 2, 'dd')
    full = np.atleast_2d(np.cov(x.T, aweights=w, ddof=0))
    cov = s.getCovMat()
    c.check('names', list(cov.paramNames) == [names[i] for i in run], lambda: '%s' % cov.paramNames)
    c.check('entries', np.allclose(cov.matrix, full[np.ix_(run, run)], rtol=1e-9, atol=1e-12))
    c.check('size', cov.size == len(run))
    with tempfile.TemporaryDirectory() as d:
        s.writeCovMatrix(d + '/x.covmat')
        e = c.module('getdist.covmat').CovMat(d + '/x.covmat')
        c.check('file', list(e.paramNames) == [names[i] for i in run] and np.allclose(e.matrix, cov.matrix, rtol=1e-6))
        s.writeCorrelationMatrix(d + '/x.corr')
        q = np.loadtxt(d + '/x.corr', ndmin=2)
        c.check('corr_file', np.allclose(q, s.getCorrelationMatrix(), atol=1e-6))
        sd = np.sqrt(full.diagonal())
        c.check('corr', np.allclose(q[:p, :p], full / np.outer(sd, sd), atol=1e-6))
        s.rootdirname = d + '/root'
        s.writeCovMatrix()
        s.writeCorrelationMatrix()
        c.check('default_files', os.path.exists(d + '/root.covmat') and os.path.exists(d + '/root.corr'))
    cov.rescaleParameter(cov.paramNames[0], 5.0)
    c.check('separate', np.allclose(s.getCovMat().matrix, full[np.ix_(run, run)], rtol=1e-9, atol=1e-12))
