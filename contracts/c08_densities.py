"""C08: densities are normalised, limits and contours enclose the requested probability"""
import numpy as np
from pyvc.api import contract
from contracts.common import Box

D = 'getdist.densities:'


def density1(c, lo=3, small=(3, 4)):
    de = c.module('getdist.densities')
    b = Box()
    b.n = c.dim('n', lo=lo, small=small, hi=30)
    b.x0, b.h = c.real('x0'), c.real('h', pos=True)
    b.P = c.array('P', (b.n,), gen=lambda r, d: r.rand(*d) * 3, pred=lambda t: t >= 0)
    if c.concrete:
        b.x = b.x0 + b.h * np.arange(int(b.n))
    else:
        b.x = c.new((b.n,), lambda i: b.x0 + b.h * i)
    b.p = lambda i: c.at(b.P, i)
    b.d = de.Density1D(b.x, c.fresh_copy(b.P))
    b.int = lambda p: ((p(0) + p(b.n - 1)) / 2 + c.sum(b.n - 2, lambda i: p(i + 1))) * b.h
    return b


@contract('C08', 'integral_1d', [D + 'Density1D.norm_integral', D + 'Density1D.integrate'])
def _(c):
    b = density1(c)
    c.check_eq('trapezium', b.d.norm_integral(), b.int(b.p))


@contract('C08', 'normalize_1d_integral', [D + 'GridDensity.normalize', D + 'GridDensity.setP', D + 'Density1D.norm_integral'])
def _(c):
    b = density1(c)
    I = b.int(b.p)
    c.assume(I > 0)
    P0 = b.d.P
    inplace = c.flag('inplace')
    r = b.d.normalize('integral', in_place=inplace) if c.flag('arg') else b.d.normalize(in_place=inplace)
    c.check_is('self', r, b.d)
    c.check_arr('shape_kept', b.d.P, (b.n,), lambda i: b.p(i) / I)
    c.check_eq('unit', b.int(lambda i: c.at(b.d.P, i)), 1)
    if not inplace:
        c.check_arr('original', P0, (b.n,), b.p)
    else:
        c.check_is('same', b.d.P, P0)
    c.check_is('spline', b.d.spl, None)


@contract('C08', 'normalize_1d_max', [D + 'GridDensity.normalize', D + 'GridDensity.setP'])
def _(c):
    b = density1(c)
    m = c.max(b.n, b.p)
    c.assume(m > 0)
    b.d.normalize('max', in_place=c.flag('inplace'))
    c.check_arr('scaled', b.d.P, (b.n,), lambda i: b.p(i) / m)
    c.check('at_most_one', c.forall(b.n, lambda i: b.p(i) / m <= (1 + 1e-12 if c.concrete else 1)))
    c.check_is('spline', b.d.spl, None)


@contract('C08', 'normalize_2d', [D + 'Density2D.norm_integral', D + 'Density2D.integrate', D + 'GridDensity.normalize'])
def _(c):
    de = c.module('getdist.densities')
    nx, ny = c.dim('nx', lo=3, small=(3,)), c.dim('ny', lo=3, small=(3, 4))
    hx, hy = c.real('hx', pos=True), c.real('hy', pos=True)
    P = c.array('P', (ny, nx), gen=lambda r, d: r.rand(*d) * 3, pred=lambda t: t >= 0)
    mk = (lambda n, h: h * np.arange(int(n))) if c.concrete else (lambda n, h: c.new((n,), lambda i: h * i))
    p = lambda i, j: c.at(P, i, j)
    d = de.Density2D(mk(nx, hx), mk(ny, hy), c.fresh_copy(P))
    row = lambda i, q: q(i, 0) / 2 + q(i, nx - 1) / 2 + c.sum(nx - 2, lambda j: q(i, j + 1))
    integral = lambda q: hx * hy * (row(0, q) / 2 + row(ny - 1, q) / 2 + c.sum(ny - 2, lambda i: row(i + 1, q)))
    I = integral(p)
    c.assume(I > 0)
    c.check_eq('trapezium', d.norm_integral(), I)
    how = c.option('by', ['integral', 'max']) if c.concrete else 'integral'
    d.normalize(how, in_place=c.flag('inplace'))
    if how == 'integral':
        c.check_arr('scaled', d.P, (ny, nx), lambda i, j: p(i, j) / I)
        c.check_eq('unit', integral(lambda i, j: c.at(d.P, i, j)), 1)
    elif c.concrete:
        c.check_eq('max', d.P.max(), 1)
        c.check_arr('ratio', d.P * P.max(), (ny, nx), p)


def level(c, n, v, m, tot, p, lev, extra=0):
    """bins (density v, mass m) at or above the level hold at least the fraction p; those above the next bin value at most p"""
    ge = lambda i: c.ite(v(i) >= lev, m(i), 0)
    if c.mode == 'proof':
        from pyvc.core import wrap, lift
        lev = c.name('lev', lev)
        N, pi, inv = perm = c.ghost('perms')
        Pm = lambda q: wrap(pi(lift(q)))
        ix = wrap(c.ghost('ss'))
        u = c.name('u', v(Pm(ix)))
        gt = lambda i: c.ite(v(i) > u, m(i), 0)
        mm = c.new((n,), lambda q: m(Pm(q)))
        le = lambda i: m(i) - ge(i)
        ng = lambda i: m(i) - gt(i)
        for f in (ge, gt, m):
            c.permuted_sum(perm, f)
        c.prefix_is_sum(mm, ix)
        c.prefix_is_sum(mm, ix + 1)
        c.sums_le('outside', n, lambda q: m(Pm(q)) - ge(Pm(q)), lambda q: c.ite(q < ix, m(Pm(q)), 0))
        c.sums_le('inside', n, lambda q: c.ite(q < ix + 1, m(Pm(q)), 0), lambda q: m(Pm(q)) - gt(Pm(q)))
        c.check('next_value', c.And(u >= lev, c.Not(c.And(v(Pm(ix - 1)) >= lev, v(Pm(ix - 1)) < u))))
    elif c.concrete:
        u = min(v(i) for i in range(n) if v(i) >= lev * (1 - 1e-12))
        lev = lev * (1 - 1e-12)
        gt = lambda i: c.ite(v(i) > u, m(i), 0)
    else:
        u = None
    tol = 1e-9 * tot if c.concrete else 0
    c.check('encloses', c.sum(n, ge) >= p * tot + extra - tol)
    if u is not None:
        c.check('no_more', c.sum(n, gt) <= p * tot + extra + tol)


@contract('C08', 'contour_level_1d', [D + 'getContourLevels'], bounded=False)
def _(c):
    de = c.module('getdist.densities')
    n = c.dim('n', lo=2, hi=20)
    half = c.concrete and c.flag('half')     # half-weight edge bins: concrete here, all dimensions in contour_levels
    B = c.array('B', (n,), gen=lambda r, d: r.rand(*d) ** 2 + 0.01, pred=lambda t: t > 0)
    p = c.real('p', 0, 1, gen=lambda: c.rng.choice([0.68, 0.95, 0.1, 0.5, c.rng.random()]))
    c.assume(c.And(p > 0, p < 1))
    v = lambda i: c.at(B, i)
    m = (lambda i: c.ite(c.Or(i == 0, i == n - 1), v(i) / 2, v(i))) if half else v
    tot = c.sum(n, m)
    inp = c.fresh_copy(B)
    try:
        lev = de.getContourLevels(inp, [p], half_edge=half)
    except de.DensitiesError:
        # the target falls in the lowest bin: contour outside the range
        if c.concrete:
            i = int(np.argmin(B))
            c.check('outside_range', m(i) >= (1 - p) * tot * (1 - 1e-9))
        return
    c.check_arr('input', inp, (n,), v)
    c.check('one', c.length(lev) == 1)
    level(c, n, v, m, tot, p, c.at(lev, 0))


@contract('C08', 'contour_levels', [D + 'getContourLevels', D + 'GridDensity.getContourLevels'], symbolic=False, runs=400)
def _(c):
    """any dimension: mass of the bins at or above the level, edge bins counted half in each direction"""
    de = c.module('getdist.densities')
    dim = c.int('dim', 1, 3)
    shp = tuple(c.int('n%d' % k, 2, [30, 9, 5][dim - 1]) for k in range(dim))
    B = c.array('B', shp, gen=lambda r, d: r.rand(*d) ** 2 + 0.001)
    if c.flag('zeros'):
        B[c.array('Z', shp, kind='b', gen=lambda r, d: r.rand(*d) < 0.3)] = 0
    c.assume(B.sum() > 0)
    half = c.flag('half')
    M = B.copy()
    if half:
        for k in range(dim):
            f = np.ones(shp[k])
            f[0] = f[-1] = 0.5
            M = M * f.reshape([-1 if q == k else 1 for q in range(dim)])
    cs = [0.68, 0.95] if c.flag('default') else sorted(c.rng.random() for _ in range(c.int('nc', 1, 3)))
    miss = c.option('missing', [0, 0, 0.02]) * M.sum()
    keep = B.copy()
    args = {} if cs == [0.68, 0.95] and c.flag('omit') else dict(contours=cs)
    try:
        if half and miss == 0 and dim == 2 and c.flag('method'):
            d = de.Density2D(np.arange(shp[1]) * 1.0, np.arange(shp[0]) * 1.0, B)
            L = d.getContourLevels(**args)
        else:
            L = de.getContourLevels(B, missing_norm=miss, half_edge=half, **args)
    except de.DensitiesError:
        lowest = M.reshape(-1)[np.argsort(B.reshape(-1))][0]
        c.check('outside_range', lowest >= ((1 - max(cs)) * M.sum() - miss) * (1 - 1e-9))
        return
    c.check('input', np.array_equal(B, keep))
    c.check('count', len(L) == len(cs))
    for p, lev in zip(cs, L):
        level(c, B.size, lambda i: B.flat[i], lambda i: M.flat[i], M.sum(), p, lev, extra=miss)
    o = np.argsort(cs)
    c.check('ordered', np.all(np.diff(np.array(L)[o]) <= 1e-12))


@contract('C08', 'limit_crossing', [D + 'Density1D.getLimits'], timeout=100, bounded=False,
          assumes=['some value of the interpolated grid lies above the level interpolated between two of its sorted values'])
def _(c):
    """each end: the density grid starts above the level (no limit there) or the limit is where the density first reaches it"""
    de = c.module('getdist.densities')
    b = density1(c, small=(2,), lo=2)
    fac = c.option('factor', [1, 2]) if c.mode == 'bounded' else 1 if c.concrete else c.int('factor', 1)
    N = (b.n - 1) * fac + 1
    g = de.InterpGridCache()
    G = c.array('G', (N,), gen=lambda r, d: r.rand(*d) * 3, pred=lambda t: t >= 0)
    S = c.array('S', (N,), gen=lambda r, d: np.sort(r.rand(*d) * 3), pred=lambda t: t >= 0)
    if c.concrete:
        S = np.sort(G)
    g.factor, g.bign, g.grid, g.sortgrid = fac, N, G, S
    C = np.cumsum(S) if c.concrete else c.array('C', (N,))
    g.cumsum = C
    g.norm = C[-1] if c.concrete else c.real('norm', pos=True)
    p = c.real('p', 0, 1, gen=lambda: c.rng.choice([0.68, 0.95, c.rng.random()]))
    c.assume(c.And(p > 0.05, p < 1) if c.concrete else c.And(p > 0, p < 1))
    if c.concrete:
        ix = int(np.searchsorted(C, (1 - p) * g.norm))
        c.assume(ix + 1 < int(N))
    try:
        mn, mx, lb, lt = b.d.getLimits(p, g)
    except IndexError:
        if c.concrete:
            raise
        from pyvc.core import PathEnd
        raise PathEnd()
    gr = lambda i: c.at(G, i)
    # the level used
    if not c.concrete:
        ix = c.ghost('ss') if c.mode == 'proof' else None
    if c.mode == 'proof':
        from pyvc.core import wrap, PathEnd
        import z3
        ix = wrap(ix)
        if c.ctx.branch((ix > 0).t):
            fr = (c.at(C, ix) - (1 - p) * g.norm) / (c.at(C, ix) - c.at(C, ix - 1))
            t = (1 - fr) * c.at(S, ix) + fr * c.at(S, ix + 1)
        else:
            t = c.at(S, ix)
    elif c.concrete:
        t = S[ix] if ix == 0 else (1 - (C[ix] - (1 - p) * g.norm) / S[ix]) * S[ix] + (C[ix] - (1 - p) * g.norm) / S[ix] * S[ix + 1]
    else:
        return
    if c.mode == 'proof':
        # some grid value lies above the level (the level is between two of the sorted grid values)
        c.assume(c.Not(c.forall(N, lambda q: gr(q) <= t)))
        if c.ctx.entails(z3.BoolVal(False)):
            raise PathEnd()
    fs = b.h / fac
    lo, hi = gr(0) >= t, gr(N - 1) >= t
    c.check('flag_low', c.And(c.Implies(lo, lb), c.Implies(lb, lo)))
    c.check('flag_high', c.And(c.Implies(hi, lt), c.Implies(lt, hi)))
    interp = lambda i: b.x0 + fs * (i + (t - gr(i)) / (gr(i + 1) - gr(i)))
    if c.concrete:
        if lb:
            c.check_eq('low_end', mn, b.x0)
        else:
            i = min(i for i in range(int(N)) if gr(i) > t)
            c.check_eq('low', mn, interp(i - 1), scale=abs(b.x0) + b.h)
        if lt:
            c.check_eq('high_end', mx, b.x0 + (N - 1) * fs, scale=abs(b.x0))
        else:
            i = max(i for i in range(int(N)) if gr(i) > t)
            c.check_eq('high', mx, interp(i), scale=abs(b.x0) + b.h)
    else:
        if not c.ctx.branch(lo.t):
            i = wrap(c.ghost('argmaxes', 0))
            c.check('low_first', c.And(gr(i) > t, c.forall(N, lambda q: c.Implies(q < i, gr(q) <= t))))
            c.check('low_between', c.And(i >= 1, gr(i - 1) <= t))
            c.check_eq('low', mn, b.x0 + fs * (i - (gr(i) - t) / (gr(i) - gr(i - 1))))
        else:
            c.check_eq('low_end', mn, b.x0)
        if not c.ctx.branch(hi.t):
            i = N - 1 - wrap(c.ghost('argmaxes', -1))
            c.check('high_last', c.And(gr(i) > t, c.forall(N, lambda q: c.Implies(q > i, gr(q) <= t))))
            c.check('high_between', c.And(i < N - 1, gr(i + 1) <= t))
            c.check_eq('high', mx, b.x0 + fs * (i + (gr(i) - t) / (gr(i) - gr(i + 1))))
        else:
            c.check_eq('high_end', mx, b.x0 + b.h * (b.n - 1))


@contract('C08', 'limit_grid', [D + 'Density1D.initLimitGrids'], bounded=False, assumes=['scipy splrep/splev: the interpolating spline takes the grid values at the grid points'])
def _(c):
    """the finer grid used for limits: factor points per interval from the first to the last point, its trapezium sum, sorted values and their running sums"""
    b = density1(c, lo=4)
    given = c.flag('given')
    fac = c.int('factor', 1, 60)
    if c.mode == 'proof':
        from pyvc.core import wrap, lift
        import z3
        F = z3.Function('spline', z3.RealSort(), z3.RealSort())
        f = lambda x: wrap(F(z3.ToReal(lift(x)) if z3.is_int(lift(x)) else lift(x)))
        c.stub('getdist.densities', 'splrep', lambda x, y, s=None, **k: ('tck', x, y))
        c.stub('getdist.densities', 'splev', lambda x, tck, der=0, ext=0: c.new((c.length(x),), lambda i: f(c.at(x, i))))
    elif c.concrete:
        from scipy.interpolate import splrep, splev
        tck = splrep(b.x, b.P, s=0)
        f = lambda x: float(splev(x, tck))
    g = b.d.initLimitGrids(fac) if given else b.d.initLimitGrids()
    k = g.factor
    if given:
        c.check('factor', k == fac)
    else:
        c.check('fine', k >= 2)
    N = (b.n - 1) * k + 1
    c.check('number', g.bign == N)
    at = lambda i: b.x0 + i * b.h / k
    sc = float(np.abs(b.P).max()) * 3 if c.concrete else 0
    if c.concrete:
        xs = b.x0 + np.arange(N) * b.h / k
        G = np.asarray(splev(xs, tck))
        c.check('grid', len(g.grid) == N and np.allclose(g.grid, G, atol=1e-9 * sc))
        c.check_eq('norm', g.norm, G.sum() - (b.p(0) + b.p(b.n - 1)) / 2, scale=sc * N)
        c.check('sorted', np.allclose(g.sortgrid, np.sort(G), atol=1e-9 * sc) and np.allclose(g.cumsum, np.cumsum(np.sort(G)), atol=1e-9 * sc * N))
    else:
        c.check_arr('grid', g.grid, (N,), lambda i: f(at(i)))
        c.check_eq('norm', g.norm, c.sum(N, lambda i: f(at(i))) - (b.p(0) + b.p(b.n - 1)) / 2)
        N_, pi, inv = c.ghost('perms')
        run = c.prefix(g.sortgrid)
        c.check_arr('sorted', g.sortgrid, (N,), lambda i: f(at(wrap(pi(lift(i))))))
        c.check_arr('running', g.cumsum, (N,), lambda i: run(i + 1))


@contract('C08', 'limits', [D + 'Density1D.getLimits', D + 'Density1D.initLimitGrids', D + 'Density1D.Prob'], symbolic=False, runs=150)
def _(c):
    """smooth densities: equal density at the two limits, and the region of higher density holds the requested probability"""
    de = c.module('getdist.densities')
    n = c.int('n', 40, 300)
    a = c.real('a', -5, 5)
    h = c.real('h', 0.01, 2)
    kind = c.option('kind', ['gauss', 'edge_low', 'edge_high', 'skew', 'bimodal', 'both'])
    x = a + h * np.arange(n)
    t = np.linspace(0, 1, n)
    mu = c.real('mu', 0.4, 0.6)
    P = {'gauss': np.exp(-(t - mu) ** 2 * 60), 'edge_low': np.exp(-t * 5) * (1 + t), 'edge_high': np.exp(-(1 - t) * 4), 'skew': t ** 2 * np.exp(-t * 12),
         'bimodal': np.exp(-(t - 0.25) ** 2 * 200) + 0.7 * np.exp(-(t - 0.75) ** 2 * 150), 'both': 1 + 0.3 * np.sin(3 * t)}[kind] * c.real('amp', 0.5, 4)
    d = de.Density1D(x, P.copy())
    c.check('grid', np.allclose(d.Prob(x), P, rtol=1e-8, atol=1e-10) and np.allclose(d(list(x[:4])), P[:4]))
    c.check('outside', np.all(d.Prob(np.array([x[0] - h, x[-1] + h])) == 0))
    ps = [0.68, 0.95] if c.flag('std') else [round(c.rng.uniform(0.3, 0.99), 3) for _ in range(c.int('np', 1, 3))]
    as_list = c.option('as', ['list', 'array', 'scalar'])
    res = [d.getLimits(p) for p in ps] if as_list == 'scalar' else d.getLimits(ps if as_list == 'list' else np.array(ps))
    c.check('count', len(res) == len(ps), str(res))
    N = 40000
    xx = np.linspace(x[0], x[-1], N + 1)
    f = d.Prob(xx)
    f[-1] = P[-1]
    wt = np.ones(N + 1)
    wt[0] = wt[-1] = 0.5
    for p, (mn, mx, lb, lt) in zip(ps, res):
        s = np.sort(f * wt)
        o = np.argsort(f)
        cum = np.cumsum((f * wt)[o])
        lev = f[o][min(np.searchsorted(cum, (1 - p) * cum[-1]), N)]
        # one-sided exactly when the end is above the level (away from ties)
        if abs(P[0] - lev) > 2e-3 * P.max():
            c.check('low_flag', bool(lb) == bool(P[0] > lev), '%s p=%s lev=%s end=%s' % (kind, p, lev, P[0]))
        if abs(P[-1] - lev) > 2e-3 * P.max():
            c.check('high_flag', bool(lt) == bool(P[-1] > lev), '%s p=%s lev=%s end=%s' % (kind, p, lev, P[-1]))
        if lb:
            c.check_eq('low_end', mn, x[0])
        else:
            c.check('low_level', abs(float(d.Prob(mn)[0]) - lev) < 4e-3 * P.max(), '%s %s' % (d.Prob(mn), lev))
            c.check('low_tail', np.all(f[xx < mn - 2 * h / 50] <= lev + 4e-3 * P.max()))
        if lt:
            c.check_eq('high_end', mx, x[-1])
        else:
            c.check('high_level', abs(float(d.Prob(mx)[0]) - lev) < 4e-3 * P.max(), '%s %s' % (d.Prob(mx), lev))
            c.check('high_tail', np.all(f[xx > mx + 2 * h / 50] <= lev + 4e-3 * P.max()))
        if kind in ('gauss', 'edge_low', 'edge_high', 'skew'):
            ins = (xx >= mn) & (xx <= mx)
            c.check('enclosed', abs((f * wt)[ins].sum() / (f * wt).sum() - p) < 6e-3, '%s p=%s got %s' % (kind, p, (f * wt)[ins].sum() / (f * wt).sum()))
        if len(ps) > 1 and p == max(ps):
            i = int(np.argmin(ps))
            c.check('nested', res[i][0] >= mn - 1e-9 and res[i][1] <= mx + 1e-9)


@contract('C08', 'interpolation', [D + 'Density2D.Prob', D + 'Density2D.__call__', D + 'GridDensity.bounds', D + 'Density1D.bounds', D + 'GridDensity.setP',
                                   D + 'DensityND.integrate'], symbolic=False, runs=60)
def _(c):
    de = c.module('getdist.densities')
    nx, ny = c.int('nx', 5, 12), c.int('ny', 5, 12)
    x, y = 1 + 0.3 * np.arange(nx), -2 + 0.7 * np.arange(ny)
    P = c.array('P', (ny, nx), gen=lambda r, d: r.rand(*d))
    d = de.Density2D(x, y, P.copy())
    i, j = c.int('i', 0, nx - 1), c.int('j', 0, ny - 1)
    c.check('grid_value', np.allclose(d.Prob(x[i], y[j]), P[j, i]))
    c.check('grid', np.allclose(d.Prob(x, y, grid=True), P.T) and np.allclose(d(x, y, grid=True), P.T))
    b = d.bounds()
    c.check('bounds', tuple(b[0]) == (x[0], x[-1]) and tuple(b[1]) == (y[0], y[-1]))
    c.check('view', de.Density2D(x, y, P, view_ranges=[(0, 1), (2, 3)]).bounds() == [(0, 1), (2, 3)])
    c.check('bounds1', tuple(de.Density1D(x, P[0]).bounds()) == (x[0], x[-1]))
    c.check('size', c.raises((de.DensitiesError,), lambda: de.Density2D(x, y, P.T.copy()) if nx != ny else de.Density1D(x, P[0, 1:])))
    d.normalize('integral')
    w = lambda n: np.array([0.5] + [1] * (n - 2) + [0.5])
    c.check_eq('after', (d.P * w(ny)[:, None] * w(nx)).sum() * 0.3 * 0.7, 1)
    c.check('interp_after', np.allclose(d.Prob(x[i], y[j]), d.P[j, i]))
    c.check('unknown', c.raises((de.DensitiesError,), lambda: d.normalize('other')))
    c.check('empty', c.raises((de.DensitiesError,), lambda: de.Density2D(x, y).normalize('max')))
    nz = c.int('nz', 2, 5)
    z = 0.1 * np.arange(nz)
    P3 = c.array('P3', (nz, ny, nx), gen=lambda r, q: r.rand(*q))
    d3 = de.DensityND([x, y, z], P3.copy())
    I = (P3 * w(nz)[:, None, None] * w(ny)[:, None] * w(nx)).sum() * 0.3 * 0.7 * 0.1
    c.check_eq('nd', d3.norm_integral(), I)
    d3.normalize('integral')
    c.check('nd_norm', np.allclose(d3.P, P3 / I))
    c.check_eq('nd_max', d3.normalize('max').P.max(), 1)
