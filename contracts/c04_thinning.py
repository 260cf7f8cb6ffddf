"""C04: thinning keeps every k-th unit of weight"""
import numpy as np
import z3
from pyvc.api import contract
from pyvc.specs import LoopSpec, loopspec
from contracts.common import ws

CH = 'getdist.chains:'
WS = CH + 'WeightedSamples.'


@loopspec('getdist.chains', 'WeightedSamples.thin_indices_single_samples', 0)
class Thin(LoopSpec):
    """P = running total of the weights.  Units of weight used so far: ix complete blocks and tot units of the next one;
    of row i, mult units are left.  Block b was completed in row thin_ix[b]."""

    proof_only = True

    def invariant(self, loop, st, k):
        from pyvc.core import lift
        from pyvc.npshim import prefix_fn
        w, T = st['weights'], st['thin_ix']
        P = prefix_fn(w)
        n, fac = lift(st['numrows']), lift(st['factor'])
        i, ix, tot, mult = (lift(st[v]) for v in ('i', 'ix', 'tot', 'mult'))
        b = z3.Const('__b0', z3.IntSort())
        f = T.fn
        return [('rows', z3.And(i >= 0, i <= n)), ('partial', z3.And(tot >= 0, tot < fac, ix >= 0)),
                ('row_left', z3.Implies(i < n, z3.And(mult >= 0, mult <= w.elem(i)))),
                ('count', z3.If(i < n, ix * fac + tot == P(i + 1) - mult, ix * fac + tot == P(n))),
                ('blocks', z3.ForAll([b], z3.Implies(z3.And(b >= 0, b < ix), block(P, n, fac, b, f(b))), patterns=[f(b)]
                                     if z3.is_app(f(b)) and f(b).decl().kind() == z3.Z3_OP_UNINTERPRETED else []))]

    def havoc(self, loop, st):
        from pyvc.core import cur, wrap
        ctx = cur()
        T = st['thin_ix']
        loop.modifies = [T]
        F = ctx.fresh_fn('thin', z3.IntSort(), z3.IntSort())
        T._fn = lambda *c: F(*c)
        new = {v: wrap(ctx.index(v)) for v in ('i', 'ix', 'tot', 'mult')}
        s2 = dict(st)
        s2.update(new)
        for name, f in self.invariant(loop, s2, None):
            ctx.assume(f)
        return new


def block(P, n, fac, b, r):
    return z3.And(r >= 0, r < n, P(r) < (b + 1) * fac, (b + 1) * fac <= P(r + 1))


@contract('C04', 'blocks', [WS + 'thin_indices_single_samples', WS + 'thin_indices'], timeout=200)
def _(c):
    """rows with more weight than the factor: one index per complete block, the row in which it completes"""
    ch = c.module('getdist.chains')
    n = c.dim('n', small=(1, 2))
    w = c.array('w', (n,), kind='i', gen=lambda r, d: r.randint(0, 9, d), pred=lambda x: x >= 0)
    k = c.int('k', 1, 8) if c.concrete else c.int('k', 1, 3 if c.mode == 'bounded' else None)
    if c.mode == 'bounded':
        c.assume_all(n, lambda i: c.at(w, i) <= 4)
    c.assume(k < c.max(n, lambda i: c.at(w, i)))
    P = c.prefix(w)
    T = ch.WeightedSamples.thin_indices_single_samples(k, c.fresh_copy(w) if not c.concrete else w.astype(float))
    nb = c.length(T)
    N = P(n)
    c.check('count', c.And(nb * k <= N, N < (nb + 1) * k))
    b = c.int('b', 0, gen=lambda: c.rng.randrange(max(1, len(T))))
    c.assume(b < nb)
    r = c.at(T, b)
    c.check('row', c.And(r >= 0, r < n))
    c.check('not_before', P(r) < (b + 1) * k)
    c.check('completed', (b + 1) * k <= P(r + 1))


@contract('C04', 'sparse', [WS + 'thin_indices_single_samples'], timeout=200)
def _(c):
    """no row heavier than the factor: the first row, and the rows in which a block completes"""
    ch = c.module('getdist.chains')
    n = c.dim('n', small=(1, 2))
    w = c.array('w', (n,), kind='i', gen=lambda r, d: r.randint(0, 5, d), pred=lambda x: x >= 0)
    k = c.int('k', 1, 12) if c.concrete else c.int('k', 1)
    if c.mode == 'bounded':
        c.assume(k <= 3)
    c.assume(k >= c.max(n, lambda i: c.at(w, i)))
    P = c.prefix(w)
    T = ch.WeightedSamples.thin_indices_single_samples(k, c.fresh_copy(w) if not c.concrete else w.astype(float))
    m = c.length(T)
    b = c.int('b', 0, gen=lambda: c.rng.randrange(max(1, len(T))))
    c.assume(b < m)
    r = c.at(T, b)
    fl = lambda x: x // k
    c.check('row', c.And(r >= 0, r < n))
    c.check('kept', c.Or(r == 0, fl(P(r)) < fl(P(r + 1))))
    c.assume(b + 1 < m)
    c.check('increasing', r < c.at(T, b + 1))


@contract('C04', 'sparse_complete', [WS + 'thin_indices_single_samples'], timeout=200)
def _(c):
    """every row in which a block completes is selected"""
    ch = c.module('getdist.chains')
    n = c.dim('n', small=(1, 2))
    w = c.array('w', (n,), kind='i', gen=lambda r, d: r.randint(0, 5, d), pred=lambda x: x >= 0)
    k = c.int('k', 1, 12) if c.concrete else c.int('k', 1)
    if c.mode == 'bounded':
        c.assume(k <= 3)
    c.assume(k >= c.max(n, lambda i: c.at(w, i)))
    P = c.prefix(w)
    T = ch.WeightedSamples.thin_indices_single_samples(k, c.fresh_copy(w) if not c.concrete else w.astype(float))
    r = c.int('r', 0, gen=lambda: c.rng.randrange(int(n)))
    c.assume(r < n)
    c.assume(c.Or(r == 0, P(r) // k < P(r + 1) // k))
    if c.mode == 'proof':
        m, u, ix, pos = c.ctx.uniq[-1]
        from pyvc.core import lift
        c.check('selected', z3.And(pos(lift(r)) >= 0, pos(lift(r)) < lift(c.length(T)), lift(c.at(T, z3_wrap(pos(lift(r))))) == lift(r)))
    else:
        c.check('selected', c.Or(*[c.at(T, b) == r for b in range(int(c.length(T)))]))


def z3_wrap(t):
    from pyvc.core import wrap
    return wrap(t)


@contract('C04', 'definition', [WS + 'thin_indices_single_samples', WS + 'thin_indices', WS + 'thin_indices_and_weights'], symbolic=False, runs=600)
def _(c):
    """rows repeated once per block completed in them, in order; counts are those multiplicities"""
    ch = c.module('getdist.chains')
    n = c.int('n', 1, 40)
    hi = c.option('hi', [2, 4, 12, 60])
    w = c.array('w', (n,), gen=lambda r, d: r.randint(0, hi, d).astype(float))
    c.assume(w.sum() > 0)
    k = c.int('k', 1, 15)
    T = ch.WeightedSamples.thin_indices_single_samples(k, w)
    C = np.cumsum(w.astype(int)) // k
    d = np.diff(np.concatenate([[0], C]))
    if k >= w.max() and d[0] == 0:
        d[0] = 1      # a leading sample from the first row
    exp = np.repeat(np.arange(n), d)
    c.check('rows', list(T) == list(exp), '%s, expected %s' % (T, exp))
    s = ch.WeightedSamples(samples=np.arange(n, dtype=float)[:, None], weights=w.copy(), min_weight_ratio=-1)
    c.check('own_weights', list(s.thin_indices(k)) == list(exp))
    u, cn = ch.WeightedSamples.thin_indices_and_weights(k, w)
    c.check('unique', list(u) == [i for i in range(n) if d[i]])
    c.check('counts', list(cn) == [x for x in d if x])


@contract('C04', 'reject', [WS + 'thin_indices_single_samples'], symbolic=False)
def _(c):
    ch = c.module('getdist.chains')
    n = c.int('n', 1, 10)
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, 5, d).astype(float))
    i = c.int('i', 0, n - 1)
    x = w.copy()
    x[i] += c.option('frac', [0.5, 0.01, 0.999])
    c.check('weights', c.raises((ch.WeightedSampleError,), lambda: ch.WeightedSamples.thin_indices_single_samples(2, x)))
    c.check('factor', c.raises((ch.WeightedSampleError,), lambda: ch.WeightedSamples.thin_indices_single_samples(2.5, w)))
    c.check('int_float_factor', list(ch.WeightedSamples.thin_indices_single_samples(2.0, w)) == list(ch.WeightedSamples.thin_indices_single_samples(2, w)))


def any_indices(c, b, name='T'):
    m = c.dim('m')
    T = c.array(name, (m,), kind='i', pred=lambda x: c.And(x >= 0, x < b.n), gen=lambda r, d: np.sort(r.randint(0, int(b.n), d)))
    return m, T


@contract('C04', 'thin', [WS + 'thin'], concrete=False, bounded=False)
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    m, T = any_indices(c, b)
    seen = []
    c.stub('getdist.chains', 'thin_indices_single_samples', staticmethod(lambda factor, weights: (seen.append((factor, weights)), T)[1]), owner='WeightedSamples')
    k = c.int('k', 1)
    b.s.thin(k)
    c.check('called', len(seen) == 1)
    c.check_eq('factor', seen[0][0], k)
    c.check_arr('weights_thinned', seen[0][1], (b.n,), lambda i: b.wt(i))
    c.check_arr('samples', b.s.samples, (m, b.p), lambda t, j: b.x(c.at(T, t), j))
    c.check_arr('weights', b.s.weights, (m,), lambda t: 1)
    if b.L is None:
        c.check_is('loglikes', b.s.loglikes, None)
    else:
        c.check_arr('loglikes', b.s.loglikes, (m,), lambda t: c.at(b.L, c.at(T, t)))
    c.check_eq('norm', b.s.norm, m)


@contract('C04', 'weighted_thin', [WS + 'weighted_thin', WS + 'thin_indices_and_weights'], concrete=False, bounded=False)
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'), like=c.flag('like'))
    m, T = any_indices(c, b)
    seen = []
    c.stub('getdist.chains', 'thin_indices_single_samples', staticmethod(lambda factor, weights: (seen.append((factor, weights)), T)[1]), owner='WeightedSamples')
    k = c.int('k', 1)
    b.s.weighted_thin(k)
    c.check('called', len(seen) == 1)
    c.check_eq('factor', seen[0][0], k)
    c.check_arr('weights_thinned', seen[0][1], (b.n,), lambda i: b.wt(i))
    mu, u, ix, pos = c.ctx.uniq[-1]
    U = lambda t: z3_wrap(u(core_lift(t)))
    mm = z3_wrap(mu)
    c.check_arr('samples', b.s.samples, (mm, b.p), lambda t, j: b.x(U(t), j))
    c.check_arr('weights', b.s.weights, (mm,), lambda t: c.sum(m, lambda q: c.ite(c.at(T, q) == U(t), 1, 0)))
    if b.L is not None:
        c.check_arr('loglikes', b.s.loglikes, (mm,), lambda t: c.at(b.L, U(t)))


def core_lift(t):
    from pyvc.core import lift
    return lift(t)


@contract('C04', 'objects', [WS + 'thin', WS + 'weighted_thin', CH + 'Chains.weighted_thin'], symbolic=False, runs=300)
def _(c):
    chm = c.module('getdist.chains')
    n = c.int('n', 2, 30)
    hi = c.option('hi', [2, 4, 12])
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, hi, d).astype(float))
    L = -np.arange(n, dtype=float) * 2
    X = np.column_stack([np.arange(n, dtype=float), np.arange(n) ** 2.0])
    like = c.flag('like')
    k = c.int('k', 1, 6)
    kind = c.option('kind', ['ws', 'chains', 'mc'])
    if kind == 'mc':
        chm.print_load_details = False
        s = c.module('getdist.mcsamples').MCSamples(samples=X.copy(), weights=w.copy(), loglikes=L.copy() if like else None, names=['i', 'j'], ignore_rows=0,
                                                    settings={'min_weight_ratio': -1})
    else:
        s = getattr(chm, 'WeightedSamples' if kind == 'ws' else 'Chains')(samples=X.copy(), weights=w.copy(), loglikes=L.copy() if like else None, min_weight_ratio=-1)
    C = np.cumsum(w.astype(int)) // k
    d = np.diff(np.concatenate([[0], C]))
    if k >= w.max() and d[0] == 0:
        d[0] = 1
    c.assume(d.sum() > 0)
    if c.flag('weighted'):
        s.weighted_thin(k)
        rows = np.flatnonzero(d)
        ww = d[rows]
    else:
        s.thin(k)
        rows = np.repeat(np.arange(n), d)
        ww = np.ones(len(rows))
    c.check_arr('samples', s.samples, (len(rows), 2), lambda i, j: X[rows[i], j])
    c.check_arr('weights', s.weights, (len(rows),), lambda i: ww[i])
    if like:
        c.check_arr('loglikes', s.loglikes, (len(rows),), lambda i: L[rows[i]])
    c.check_eq('norm', s.get_norm(), d.sum())
    c.check_eq('numrows', s.numrows, len(rows))


@contract('C04', 'thin_file', ['getdist.mcsamples:MCSamples.writeThinData'], symbolic=False, runs=40)
def _(c):
    import os
    import tempfile
    chm = c.module('getdist.chains')
    chm.print_load_details = False
    n = c.int('n', 6, 20)
    X = c.array('X', (n, 2), gen=lambda r, d: r.normal(0, 10, d))
    L = c.array('L', (n,), gen=lambda r, d: r.normal(5, 1, d))
    L = L + c.option('offset', [0, -2000, 3000])
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, 4, d).astype(float))
    m = c.module('getdist.mcsamples').MCSamples(samples=X.copy(), weights=w.copy(), loglikes=L.copy(), names=['a', 'b'], ignore_rows=0,
                                                settings={'min_weight_ratio': -1})
    T = m.thin_indices(c.int('k', 1, 4))
    cool = c.option('cool', [1, 0.5, 2.0])
    f = tempfile.mktemp()
    m.writeThinData(f, T, cool)
    D = np.loadtxt(f, ndmin=2)
    os.remove(f)
    wt = np.exp(-(cool - 1) * (L[T] - L[T[0]])) if cool != 1 else np.ones(len(T))
    c.check('shape', D.shape == (len(T), 4), str(D.shape))
    c.check('finite', np.all(np.isfinite(D)) and np.all(D[:, 0] > 0))
    c.check('weights', np.allclose(D[:, 0] / D[0, 0], wt / wt[0], rtol=1e-5))
    c.check('likes', np.allclose(D[:, 1], L[T] * cool, rtol=1e-6))
    c.check('samples', np.allclose(D[:, 2:], X[T], rtol=1e-6))


@contract('C04', 'random_single', [WS + 'random_single_samples_indices', 'getdist.mcsamples:MCSamples.makeSingleSamples'], symbolic=False, runs=60)
def _(c):
    """weight-one samples: indices increase, never a zero-weight row, always the heaviest rows"""
    chm = c.module('getdist.chains')
    n = c.int('n', 2, 40)
    w = c.array('w', (n,), gen=lambda r, d: r.randint(0, 4, d).astype(float))
    c.assume(w.max() > 0)
    s = chm.WeightedSamples(samples=np.arange(n, dtype=float)[:, None], weights=w.copy(), min_weight_ratio=-1)
    ix = s.random_single_samples_indices(random_state=c.int('seed', 0, 1000))
    c.check('increasing', np.all(np.diff(ix) > 0))
    c.check('positive', np.all(w[ix] > 0))
    c.check('heaviest', set(np.flatnonzero(w == w.max())) <= set(ix))
    tot = np.zeros(n)
    N = 300
    for q in range(N):
        tot[s.random_single_samples_indices(random_state=q)] += 1
    c.check('frequency', np.all(np.abs(tot / N - w / w.max()) < 0.2))
