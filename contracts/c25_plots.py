"""C25: a plot shows the densities, contours and samples it is asked for"""
import contextlib
import copy
import logging
import os
import tempfile
import warnings
import numpy as np
from pyvc.api import contract, Skip

P = 'getdist.plots:GetDistPlotter.'
A = 'getdist.plots:MCSampleAnalysis.'


@contextlib.contextmanager
def canvas():
    """no display; every contour call is recorded"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    calls = []
    old = Axes.contour, Axes.contourf
    lev = logging.getLogger().level
    logging.getLogger().setLevel(logging.CRITICAL)

    def wrap(kind, f):
        def g(self, *a, **k):
            calls.append((self, kind, a, k))
            return f(self, *a, **k)
        return g
    Axes.contour, Axes.contourf = wrap('line', old[0]), wrap('fill', old[1])
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            yield calls
    finally:
        Axes.contour, Axes.contourf = old
        logging.getLogger().setLevel(lev)
        plt.close('all')


def sets(c, k, names=('a', 'b', 'q'), settings=None):
    """k sample sets with overlapping parameters, and a maker of identical fresh ones"""
    mcs = c.module('getdist.mcsamples')
    c.module('getdist.chains').print_load_details = False
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    hard = c.option('hard', [None, 'low', 'up', 'both'])
    data = []
    for i in range(k):
        n, p = r.randint(150, 300), len(names)
        X = np.dot(r.randn(n, p), np.eye(p) + 0.5 * r.randn(p, p)) + r.randn(p) * 0.3
        ranges = {}
        if hard:
            keep = np.ones(n, bool)
            for j in range(1):
                lo = np.quantile(X[:, j], 0.15 + 0.1 * i) if hard in ('low', 'both') else None
                up = np.quantile(X[:, j], 0.85 - 0.1 * i) if hard in ('up', 'both') else None
                ranges[names[j]] = [lo, up]
                if lo is not None:
                    keep &= X[:, j] > lo
                if up is not None:
                    keep &= X[:, j] < up
            X = X[keep]
        w = r.randint(1, 4, len(X)) * r.choice([1., 0.5])
        L = np.sum(X ** 2, axis=1) / 2
        data.append((X, w, L, ranges))

    def make(i):
        X, w, L, ranges = data[i]
        s = dict(ignore_rows=0, fine_bins=256, fine_bins_2D=64)
        s.update(settings or {})
        return mcs.MCSamples(samples=X.copy(), weights=w.copy(), loglikes=L.copy(), names=list(names), labels=['L_%s' % t for t in names],
                             ranges=copy.deepcopy(ranges), settings=s, label='set %d' % i)
    return data, make


def within(data, i, name, names, lims):
    """limits of a plot: those of what is drawn, inside the hard bounds"""
    lo, up = data[i][3].get(name, [None, None])
    a, b = lims
    return (a if lo is None else max(a, lo)), (b if up is None else min(b, up))


@contract('C25', 'lines', [P + 'plot_1d', P + 'add_1d', A + 'get_density', P + '_make_line_args', P + '_get_line_styles', P + '_get_plot_args'], symbolic=False, runs=60)
def _(c):
    """a line per root, in order: the density of the parameter, of unit maximum or of unit area, whatever was drawn before"""
    plots = c.module('getdist.plots')
    names = ('a', 'b', 'q')
    k = c.int('roots', 1, 3)
    data, make = sets(c, k, names)
    with canvas():
        import matplotlib
        g = plots.get_single_plotter(width_inch=3)
        S = [make(i) for i in range(k)]
        own = c.flag('plot_args')
        if own:
            g.settings.plot_args = c.option('kind', [{'lw': 2.5}, [{'lw': 2.5}, None]])
            kept = copy.deepcopy(g.settings.plot_args)
        likes = c.flag('meanlikes')
        g.settings.plot_meanlikes = likes
        args = c.option('line_args', [None, [{'color': 'm'}], [{'color': 'm', 'ls': '--'}, {'color': 'c'}, {'color': 'y'}]])
        args = copy.deepcopy(args)
        for step in range(c.int('plots', 1, 3)):
            name = c.option('par%d' % step, ['a', 'a', 'b'])
            norm = c.flag('norm%d' % step)
            order = c._in('order%d' % step, lambda: tuple(c.rng.sample(range(3), c.rng.randint(1, 3))))
            order = [i for i in order if i < k]
            if not order:
                continue
            before = copy.deepcopy(args)
            colors = c.option('colors%d' % step, [None, ['r', 'g', 'b']])
            g.new_plot()
            kw = {}
            if args is not None:
                kw['line_args'] = args
            if colors:
                kw['colors'] = colors
            given = c.option('lims%d' % step, [None, None, (-1.5, 2.25)])
            if given:
                kw['lims'] = given
            marker = c.option('marker%d' % step, [None, 0.0, 0.3])
            g.plot_1d([S[i] for i in order] if len(order) > 1 or c.flag('list') else S[order[0]], name, normalized=norm, marker=marker, **kw)
            ax = g.get_axes()
            if marker is not None:
                m = [l for l in ax.lines if len(l.get_xdata()) == 2]
                c.check('marker', len(m) == 1 and list(m[0].get_xdata()) == [marker] * 2)
            lines = [l for l in ax.lines if len(l.get_xdata()) > 2]
            c.check('count', len(lines) == len(order) * (2 if likes else 1), lambda: '%s lines' % len(lines))
            lo, hi = [], []
            for q, i in enumerate(order):
                ref = make(i).get1DDensity(name, meanlikes=likes)
                y = ref.P / (np.sum((ref.P[1:] + ref.P[:-1]) / 2 * np.diff(ref.x)) if norm else ref.P.max())
                l = lines[q * (2 if likes else 1)]
                c.check('x', len(l.get_xdata()) == len(ref.x) and np.allclose(l.get_xdata(), ref.x))
                c.check('density', np.allclose(l.get_ydata(), y, rtol=1e-3 if norm else 1e-9, atol=1e-9 + 1e-3 * norm * y.max()),
                        lambda: 'plot %s of %s, normalized=%s: maximum %s, expected %s' % (step, name, norm, max(l.get_ydata()), max(y)))
                if likes:
                    c.check('likes', np.allclose(lines[2 * q + 1].get_ydata(), ref.likes))
                col = colors[q] if colors else before[q]['color'] if before and q < len(before) else 'krb'[q]
                c.check('color', matplotlib.colors.to_rgb(l.get_color()) == matplotlib.colors.to_rgb(col),
                        lambda: 'line %s is %s, expected %s' % (q, l.get_color(), col))
                lo.append(ref.bounds()[0])
                hi.append(ref.bounds()[1])
            lim = given or within(data, order[0], name, names, (min(lo), max(hi)))
            c.check('limits', np.allclose(ax.get_xlim(), lim), lambda: '%s, expected %s' % (ax.get_xlim(), lim))
            c.check('label', ax.get_xlabel() == '$L_%s$' % name)
            c.check('arguments', args == before, lambda: 'the list of arguments given was changed: %s, was %s' % (args, before))
            if own:
                c.check('settings', g.settings.plot_args == kept, lambda: 'settings.plot_args was changed: %s' % (g.settings.plot_args,))
            for i in order:
                ref, now = make(i).get1DDensity(name), S[i].get1DDensity(name)
                c.check('samples', np.array_equal(ref.P, now.P), lambda: 'the density of the samples changed when plotted (maximum %s)' % now.P.max())


@contract('C25', 'contours', [P + 'plot_2d', P + 'add_2d_contours', A + 'get_density_grid', P + '_update_limits', P + 'add_2d_shading', P + '_get_paler_colors'],
          symbolic=False, runs=25, timeout=300)
def _(c):
    """a set of contours per root, in order, at the levels of the density, the limits holding all of them"""
    plots = c.module('getdist.plots')
    names = ('a', 'b', 'q')
    k = c.int('roots', 1, 2)
    data, make = sets(c, k, names)
    with canvas() as calls:
        import matplotlib
        g = plots.get_single_plotter(width_inch=3)
        S = [make(i) for i in range(k)]
        for step in range(c.int('plots', 1, 2)):
            pair = c.option('pair%d' % step, [('a', 'b'), ('b', 'a'), ('b', 'q')])
            nc = c.option('contours%d' % step, [2, 1, 3])
            g.settings.num_plot_contours = nc
            filled = c.option('filled%d' % step, [False, True, 'list'])
            filled = [bool(i) for i in range(k)] if filled == 'list' else filled
            shaded = not filled and c.flag('shaded%d' % step)
            g.new_plot()
            del calls[:]
            kw = {}
            colors = c.option('colors%d' % step, [None, ['r', 'g']])
            if colors:
                kw['colors'] = colors
            if c.flag('as_pair%d' % step):
                g.plot_2d(S, param_pair=list(pair), filled=filled, shaded=shaded, **kw)
            else:
                g.plot_2d(S, pair[0], pair[1], filled=filled, shaded=shaded, **kw)
            ax = g.get_axes()
            todo = [t for t in calls if t[0] is ax]
            if shaded:
                ref = make(0).get2DDensityGridData(pair[0], pair[1], num_plot_contours=nc)
                for t in todo[:2]:
                    c.check('shading', np.allclose(t[2][0], ref.x) and np.allclose(t[2][1], ref.y) and np.allclose(t[2][2], ref.P)
                            and np.allclose(t[3]['levels'], np.linspace(0, 1, 80) ** 1.8))
                todo = todo[2:]
            xs, ys = [], []
            for i in range(k):
                fill = filled[i] if isinstance(filled, list) else filled
                ref = make(i).get2DDensityGridData(pair[0], pair[1], num_plot_contours=nc)
                c.check('drawn', len(todo) > 0 and todo[0][1] == ('fill' if fill else 'line'))
                t = todo.pop(0)
                x, y, p, lev = t[2][:4]
                c.check('grid', np.allclose(x, ref.x) and np.allclose(y, ref.y) and np.shape(p) == ref.P.shape and np.allclose(p, ref.P),
                        lambda: 'root %s, %s' % (i, pair))
                want = sorted(ref.getContourLevels([0.68, 0.95, 0.99][:nc]))
                got = list(lev)
                if fill:
                    c.check('top', got[-1] > ref.P.max())
                    got = got[:-1]
                    cols = [matplotlib.colors.to_rgb(q) for q in t[3]['colors']]
                    base = matplotlib.colors.to_rgb(colors[i] if colors else g.settings.solid_colors[k - i - 1])
                    c.check('colors', len(cols) == nc and np.allclose(cols[-1], base) and all(np.all(np.array(u) >= np.array(v)) for u, v in zip(cols, cols[1:])),
                            lambda: '%s, innermost should be %s' % (cols, base))
                    c.check('edge', todo[0][1] == 'line' and np.allclose(todo[0][2][3], [want[0]]))
                    todo.pop(0)
                else:
                    base = colors[i] if colors else 'kr'[i]
                    c.check('color', [matplotlib.colors.to_rgb(q) for q in t[3]['colors']] == [matplotlib.colors.to_rgb(base)])
                c.check('levels', len(got) == nc and np.allclose(got, want), lambda: '%s, expected %s' % (got, want))
                b = ref.bounds()
                xs += list(b[0])
                ys += list(b[1])
            c.check('no_others', not todo)
            lim = within(data, 0, pair[0], names, (min(xs), max(xs))) + within(data, 0, pair[1], names, (min(ys), max(ys)))
            c.check('limits', np.allclose(ax.get_xlim() + ax.get_ylim(), lim), lambda: '%s, expected %s' % (ax.get_xlim() + ax.get_ylim(), lim))
            c.check('labels', (ax.get_xlabel(), ax.get_ylabel()) == tuple('$L_%s$' % q for q in pair))
            c.check('legend', len(g.contours_added) == k and None not in g.contours_added)


@contract('C25', 'ellipse', [P + 'add_2d_covariance', P + 'add_2d_density_contours'], symbolic=False, runs=40)
def _(c):
    """the contours of a Gaussian are those of its covariance"""
    plots = c.module('getdist.plots')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    m = r.randn(2) * 3
    B = r.randn(2, 2)
    cov = (np.dot(B, B.T) + 0.1 * np.eye(2)) * 10 ** r.uniform(-2, 2)
    with canvas() as calls:
        g = plots.get_single_plotter(width_inch=3)
        kw = {}
        if c.flag('grid'):
            kw = dict(xvals=m[0] + np.linspace(-1, 2, 7), yvals=m[1] + np.linspace(-2, 1.5, 5))
        g.add_2d_covariance(list(m), cov.tolist() if c.flag('lists') else cov, samples_per_std=8., **kw)
        c.check('drawn', len(calls) == 1)
        x, y, p, lev = calls[0][2][:4]
        C = np.linalg.inv(cov)
        for a, u in enumerate(x):
            for b, v in enumerate(y):
                d = np.array([u, v]) - m
                c.check('value', abs(p[b, a] - np.exp(-np.dot(d, np.dot(C, d)) / 2)) < 1e-9)
        c.check('levels', np.allclose(lev, [0.05, 0.32]))
        if kw:
            c.check('points', np.allclose(x, kw['xvals']) and np.allclose(y, kw['yvals']))
        else:
            s = np.sqrt(np.diag(cov))
            c.check('span', np.all(np.abs(np.array([x[0], y[0]]) - (m - 4 * s)) < 1e-9 * s) and x[-1] > m[0] + 3.8 * s[0] and y[-1] > m[1] + 3.8 * s[1])


@contract('C25', 'points', [P + 'plot_3d', P + 'add_3d_scatter', P + 'plot_2d_scatter', A + 'load_single_samples', P + '_make_param_object'], symbolic=False, runs=60)
def _(c):
    """the points of a scatter plot are samples, coloured by the third parameter; or all of them, with opacity in proportion to weight"""
    plots = c.module('getdist.plots')
    np.random.seed(c.int('single', 0, 1000))
    names = ('a', 'b', 'q')
    data, make = sets(c, 1, names)
    X, w, L, ranges = data[0]
    s = make(0)
    use = c.option('pars', [('a', 'b', 'q'), ('q', 'a', 'b'), ('b', 'q', 'a')])
    cols = [names.index(u) for u in use]
    how = c.option('how', ['3d', '2d', 'alpha'])
    with canvas():
        g = plots.get_single_plotter(width_inch=3)
        thin = c.option('thin', [1, 1, 2, 3])
        if how == '3d':
            g.plot_3d(s, list(use), extra_thin=thin)
        elif how == '2d':
            g.plot_2d_scatter(s, use[0], use[1], color='g', extra_thin=thin)
        else:
            alpha = c.option('alpha', [1, 0.5])
            g.plot_3d(s, list(use), alpha_samples=True, alpha=alpha)
        ax = g.subplots[0, 0]
        sc = ax.collections[0]
        pts = np.asarray(sc.get_offsets())
        if how == 'alpha':
            rgba = sc.get_facecolors()
            keep = np.where(w > w.max() / 400)[0]
            rows = {}
            for i in keep:
                rows.setdefault((X[i, cols[0]], X[i, cols[1]]), [0, 0.])
                rows[(X[i, cols[0]], X[i, cols[1]])][1] += w[i] / w.max() * alpha
            for q, pt in enumerate(pts):
                c.check('a_sample', tuple(pt) in rows)
                rows[tuple(pt)][0] += rgba[q, 3]
            for v in rows.values():
                c.check('opacity', abs(v[0] - v[1]) < 1e-6, lambda: 'opacity %s of a point of relative weight %s' % tuple(v))
            c.check('color_by', set(np.asarray(g.last_scatter.get_array())) <= set(X[:, cols[2]]))
            drawn = X[keep]
        else:
            single = g.sample_analyser.single_samples[s]
            c.check('single', {tuple(x) for x in single} <= {tuple(x) for x in X} and len(single) > 0)
            sub = single[::thin]
            c.check('points', pts.shape == (len(sub), 2) and np.array_equal(pts, sub[:, cols[:2]]))
            if how == '3d':
                c.check('color_by', np.array_equal(np.asarray(sc.get_array()), sub[:, cols[2]]))
            drawn = sub
        for v, j, name in ((ax.get_xlim(), cols[0], use[0]), (ax.get_ylim(), cols[1], use[1])):
            d = X[:, j] if how == 'alpha' else drawn[:, j]
            m = (d.max() - d.min()) / 20
            lim = within(data, 0, name, names, (d.min() - m, d.max() + m))
            c.check('limits', np.allclose(v, lim), lambda: '%s: %s, expected %s' % (name, v, lim))
        c.check('labels', (ax.get_xlabel(), ax.get_ylabel()) == ('$L_%s$' % use[0], '$L_%s$' % use[1]))


@contract('C25', 'triangle', [P + 'triangle_plot', P + '_subplot', P + 'get_axes_for_params', P + 'get_axes', P + '_get_marker', P + 'get_param_array'], symbolic=False, runs=25, timeout=300)
def _(c):
    """each panel of a triangle plot shows the parameters of its row and column, with the same limits along both"""
    plots = c.module('getdist.plots')
    names = ('a', 'b', 'q')
    k = c.int('roots', 1, 2)
    data, make = sets(c, k, names)
    S = [make(i) for i in range(k)]
    with canvas() as calls:
        g = plots.get_subplot_plotter(subplot_size=1.5)
        use = c.option('pars', [('a', 'b', 'q'), ('q', 'a'), ('b', 'q', 'a'), ('a', 'b')])
        upper = k == 2 and c.flag('upper')
        kw = dict(filled=c.flag('filled'))
        mark = c.option('markers', [None, 'dict', 'list'])
        mv = {'a': 0.125, 'b': -0.25} if mark == 'dict' else {u: 0.0625 * (i + 1) for i, u in enumerate(use)} if mark == 'list' else {}
        if mark:
            kw['markers'] = mv if mark == 'dict' else [mv[u] for u in use]
        lim = {}
        if c.flag('limits'):
            lim = {'b': (-1.25, 1.75)}
            kw['param_limits'] = lim
        if upper:
            g.triangle_plot([S[0]], list(use), upper_roots=[S[1]], **kw)
        else:
            g.triangle_plot(S, list(use), **kw)
        n = len(use)
        c.check('shape', g.subplots.shape == (n, n))
        at = {}
        for i in range(n):
            ax = g.subplots[i, i]
            lines = [l for l in ax.lines if len(l.get_xdata()) > 2]
            c.check('diagonal', len(lines) == k)
            b = []
            for l, q in zip(lines, range(k)):
                ref = make(q).get1DDensity(use[i])
                c.check('density', np.allclose(l.get_xdata(), ref.x) and np.allclose(l.get_ydata(), ref.P))
                b.append(ref.bounds())
            want = lim.get(use[i]) or within(data, 0, use[i], names, (min(t[0] for t in b), max(t[1] for t in b)))
            at[i] = want
            c.check('limits_1d', np.allclose(ax.get_xlim(), want), lambda: '%s: %s, expected %s' % (use[i], ax.get_xlim(), want))
            m = [l.get_xdata()[0] for l in ax.lines if len(l.get_xdata()) == 2]
            c.check('marker_1d', m == ([mv[use[i]]] if use[i] in mv else []))
            c.check('axes_1d', g.get_axes_for_params(use[i]) is ax)
        for i in range(n):
            for j in range(n):
                if i == j:
                    continue
                ax = g.subplots[j, i]           # row j, column i
                if j < i and not upper:
                    c.check('empty', ax is None)
                    continue
                roots = [1] if j < i else ([0] if upper else list(range(k)))
                drawn = [t for t in calls if t[0] is ax and (t[1] == 'fill' or not kw['filled'])]
                c.check('panel', len(drawn) == len(roots))
                for t, q in zip(drawn, roots):
                    ref = make(q).get2DDensityGridData(use[i], use[j], num_plot_contours=2)
                    c.check('contours', np.allclose(t[2][0], ref.x) and np.allclose(t[2][1], ref.y) and np.allclose(t[2][2], ref.P),
                            lambda: 'row %s, column %s is not %s against %s' % (j, i, use[j], use[i]))
                c.check('limits', np.allclose(ax.get_xlim(), at[i]) and np.allclose(ax.get_ylim(), at[j]),
                        lambda: 'row %s, column %s: %s, expected %s' % (j, i, ax.get_xlim() + ax.get_ylim(), tuple(at[i]) + tuple(at[j])))
                mx = [l.get_xdata()[0] for l in ax.lines if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1]]
                my = [l.get_ydata()[0] for l in ax.lines if len(l.get_xdata()) == 2 and l.get_ydata()[0] == l.get_ydata()[1]]
                c.check('markers', mx == ([mv[use[i]]] if use[i] in mv else []) and my == ([mv[use[j]]] if use[j] in mv else []),
                        lambda: 'row %s, column %s: markers %s %s' % (j, i, mx, my))
                c.check('axes', g.get_axes_for_params(use[i], use[j]) is ax and g.get_axes((j, i)) is ax)
                if j == n - 1:
                    c.check('xlabel', ax.get_xlabel() == '$L_%s$' % use[i])
                if i == 0 and j > 0:
                    c.check('ylabel', ax.get_ylabel() == '$L_%s$' % use[j])
        # panels of the same parameter move together
        i = c.int('move', 0, 2) % n
        l = (-0.75, 0.5 + 0.25 * i)
        g.subplots[n - 1, i].set_xlim(l)
        c.check('columns_linked', all(np.allclose(g.subplots[j, i].get_xlim(), l) for j in range(0 if upper else i, n)))
        c.check('rows_linked', all(np.allclose(g.subplots[i, j].get_ylim(), l) for j in range(n if upper else i) if j != i))


@contract('C25', 'panels', [P + 'plots_1d', P + 'plots_2d', P + 'rectangle_plot', P + '_subplot_number', P + 'default_col_row', P + 'export'], symbolic=False, runs=25, timeout=300)
def _(c):
    """each panel of several shows its own parameters; a figure is written to the file named"""
    plots = c.module('getdist.plots')
    names = ('a', 'b', 'q')
    k = c.int('roots', 1, 2)
    data, make = sets(c, k, names)
    S = [make(i) for i in range(k)]
    kind = c.option('kind', ['1d', '2d', 'rectangle'])
    with canvas() as calls, tempfile.TemporaryDirectory() as d:
        g = plots.get_subplot_plotter(subplot_size=1.5)
        nx = c.option('nx', [None, 1, 2, 3])
        if kind == '1d':
            pars = c.option('pars', [('a', 'b', 'q'), ('q', 'a'), ('b',)])
            g.plots_1d(S, list(pars), nx=nx)
            axs = [t for t in g.subplots.reshape(-1) if t is not None]
            c.check('panels', len(axs) == len(pars))
            for ax, p in zip(axs, pars):
                lines = [l for l in ax.lines if len(l.get_xdata()) > 2]
                c.check('lines', len(lines) == k)
                for q, l in enumerate(lines):
                    ref = make(q).get1DDensity(p)
                    c.check('density', np.allclose(l.get_xdata(), ref.x) and np.allclose(l.get_ydata(), ref.P))
                c.check('label', ax.get_xlabel() == '$L_%s$' % p)
        else:
            if kind == '2d':
                pairs = c.option('pairs', [[('a', 'b'), ('a', 'q')], [('b', 'a'), ('b', 'q')], [('q', 'b')]])
                if c.flag('as_pairs'):
                    g.plots_2d(S, param_pairs=[list(p) for p in pairs], nx=nx)
                else:
                    g.plots_2d(S, pairs[0][0], [p[1] for p in pairs], nx=nx)
                axs = [t for t in g.subplots.reshape(-1) if t is not None]
            else:
                xp, yp = c.option('grid', [(('a', 'b'), ('q',)), (('a',), ('b', 'q')), (('b', 'a'), ('q', 'b'))])
                if set(xp) & set(yp):
                    yp = yp[:1]
                g.rectangle_plot(list(xp), list(yp), roots=S)
                pairs = [(x, y) for y in yp for x in xp]
                axs = [g.subplots[i, j] for i in range(len(yp)) for j in range(len(xp))]
            c.check('panels', len(axs) == len(pairs) and None not in axs)
            for ax, p in zip(axs, pairs):
                drawn = [t for t in calls if t[0] is ax and (t[1] == 'line')]
                c.check('drawn', len(drawn) == k, lambda: '%s' % len(drawn))
                for q, t in enumerate(drawn):
                    ref = make(q).get2DDensityGridData(p[0], p[1], num_plot_contours=2)
                    c.check('contours', np.allclose(t[2][0], ref.x) and np.allclose(t[2][1], ref.y) and np.allclose(t[2][2], ref.P), lambda: '%s' % (p,))
        sub = c.flag('folder')
        g.export('fig' + c.option('ext', ['.png', '.pdf']), adir=d + '/new' if sub else d, tag=None)
        files = [os.path.join(a, f)[len(d) + 1:] for a, _, fs in os.walk(d) for f in fs]
        c.check('file', len(files) == 1 and files[0].startswith('new/fig.' if sub else 'fig.') and os.path.getsize(d + '/' + files[0]) > 0, lambda: '%s' % files)


@contract('C25', 'roots', [A + 'samples_for_root', A + 'add_chain_dir', A + 'add_root', A + 'remove_root', A + 'params_for_root', A + 'bounds_for_root', A + 'reset'],
          symbolic=False, runs=60)
def _(c):
    """a root name is the chains of that name in the first folder that has them, with that folder's settings, until removed"""
    plots = c.module('getdist.plots')
    c.module('getdist.chains').print_load_details = False
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    lev = logging.getLogger().level
    logging.getLogger().setLevel(logging.CRITICAL)
    try:
        with tempfile.TemporaryDirectory() as d:
            folders = ['one', 'two'][:c.int('folders', 1, 2)]
            has, conf = {}, {}

            def write(f, n, shift):
                X = r.randn(20, 2) + shift
                np.savetxt('%s/%s/%s_1.txt' % (d, f, n), np.hstack([np.ones((20, 1)), np.ones((20, 1)), X]))
                with open('%s/%s/%s.paramnames' % (d, f, n), 'w') as o:
                    o.write('a A\nb B\n')
                has[f, n] = np.loadtxt('%s/%s/%s_1.txt' % (d, f, n))[:, 2:]
            for fi, f in enumerate(folders):
                os.mkdir(d + '/' + f)
                write(f, 'other%d' % fi, 0)
                for n in ('x', 'y'):
                    if c.flag(f + n):
                        write(f, n, 10 * fi)
                if c.flag(f + 'ini'):
                    conf[f] = c.option(f + 'rows', [5, 8])
                    with open('%s/%s/getdist.ini' % (d, f), 'w') as o:
                        o.write('ignore_rows = %d\n' % conf[f])
            an = plots.MCSampleAnalysis([d + '/' + f for f in folders], {'ignore_rows': c.option('rows', [0, 3])})
            base = an.ini.int('ignore_rows')
            for n in ('x', 'y', 'x'):
                src = [f for f in folders if (f, n) in has]
                if not src:
                    c.raises(Exception, lambda: an.samples_for_root(n))
                    continue
                s = an.samples_for_root(n)
                rows = conf.get(src[0], base)
                c.check('chains', s.samples.shape == (20 - rows, 2) and np.allclose(s.samples, has[src[0], n][rows:]),
                        lambda: '%s from %s, settings %s, rows %s: %s rows' % (n, src[0], conf, rows, len(s.samples)))
                c.check('cached', an.samples_for_root(n) is s)
                c.check('names', an.params_for_root(n).list() == ['a', 'b'] and an.bounds_for_root(n) is s)
                c.check('itself', an.samples_for_root(s) is s)
                ix = an.get_density(n, 'a')
                if c.flag('again' + n):
                    write(src[0], n, 5)
                    how = c.option('how' + n, ['remove', 'nocache', 'reset'])
                    if how == 'remove':
                        an.remove_root(n)
                    elif how == 'reset':
                        an.reset({'ignore_rows': base})
                    t = an.samples_for_root(n, cache=how != 'nocache')
                    c.check('read_again', t is not s and np.allclose(t.samples, has[src[0], n][rows:]))
                    if how != 'nocache':
                        c.check('density_again', np.array_equal(an.get_density(n, 'a').P, t.get1DDensity('a').P) and an.get_density(n, 'a') is not ix)
            f = folders[-1]
            n = 'other%d' % (len(folders) - 1)
            s = an.add_root('%s/%s/%s' % (d, f, n)) if c.flag('path') else an.add_root(plots.RootInfo(n, d + '/' + f))
            c.check('added', np.allclose(s.samples, has[f, n][base:]) and an.samples_for_root(n) is s)
    finally:
        logging.getLogger().setLevel(lev)


@contract('C25', 'merged_limits', [P + '_update_limit', P + '_update_limits', P + '_check_param_ranges', P + '_get_param_bounds'], runs=100)
def _(c):
    """limits hold every range drawn, and stay inside the hard bounds of the parameter"""
    plots = c.module('getdist.plots')
    g = c.partial(plots.GetDistPlotter)
    g.auto_close = False
    a, lo, x, u = [c.real(t) for t in ('a', 'lo', 'x', 'u')]
    b, up, y, v = [s + c.real('w' + t, pos=True) for t, s in (('a', a), ('lo', lo), ('x', x), ('u', u))]
    first = c.flag('first')
    got = g._update_limit((a, b), (None, None) if first else (lo, up))
    if first:
        c.check('only', c.And(got[0] == a, got[1] == b))
    else:
        c.check('holds_both', c.And(got[0] <= a, got[0] <= lo, got[1] >= b, got[1] >= up))
        c.check('smallest', c.And(c.Or(got[0] == a, got[0] == lo), c.Or(got[1] == b, got[1] == up)))
    c.check('none_drawn', g._update_limit(None, (lo, up)) == (lo, up))
    two = g._update_limits(((a, b), (x, y)), None if first else (lo, up), None if first else (u, v))
    if first:
        c.check('first_2d', c.And(two[0][0] == a, two[0][1] == b, two[1][0] == x, two[1][1] == y))
    else:
        c.check('holds_2d', c.And(two[0][0] <= a, two[0][0] <= lo, two[0][1] >= b, two[0][1] >= up, two[1][0] <= x, two[1][0] <= u, two[1][1] >= y, two[1][1] >= v))
        c.check('smallest_2d', c.And(c.Or(two[0][0] == a, two[0][0] == lo), c.Or(two[0][1] == b, two[0][1] == up),
                                     c.Or(two[1][0] == x, two[1][0] == u), c.Or(two[1][1] == y, two[1][1] == v)))
    n = g._update_limits(None, (lo, up), (u, v))
    c.check('none_drawn_2d', c.And(n[0][0] == lo, n[0][1] == up, n[1][0] == u, n[1][1] == v))
    hl, hu = c.flag('has_lower'), c.flag('has_upper')

    class Bounds:
        def __init__(self, l, h):
            self.l, self.h = l, h

        def getLower(self, name):
            return self.l if hl else None

        def getUpper(self, name):
            return self.h if hu else None
    g.param_bounds_sets = {'r': Bounds(lo, up), 's': Bounds(u, v)}
    q = g._check_param_ranges('r', 'p', a, b)
    c.check('inside', c.And(*([q[0] >= lo] if hl else []), *([q[1] <= up] if hu else []), q[0] >= a, q[1] <= b))
    c.check('widest', c.And(c.Or(q[0] == a, q[0] == lo) if hl else q[0] == a, c.Or(q[1] == b, q[1] == up) if hu else q[1] == b))
    q = g._get_param_bounds(['r', 's'], 'p')
    if hl:
        c.check('lower', c.And(q[0] >= lo, q[0] >= u, c.Or(q[0] == lo, q[0] == u)))
    else:
        c.check('no_lower', q[0] is None)
    if hu:
        c.check('upper', c.And(q[1] <= up, q[1] <= v, c.Or(q[1] == up, q[1] == v)))
    else:
        c.check('no_upper', q[1] is None)


@contract('C25', 'places', [P + 'default_col_row', P + '_subplot_number'], runs=100)
def _(c):
    """every plot of a figure has a place of its own"""
    plots = c.module('getdist.plots')
    where = []

    class G(plots.GetDistPlotter):
        def _subplot(self, x, y, pars=None, **k):
            where.append((x, y))
    g = c.partial(G)
    g.auto_close = False
    n, nx, i, j = c.int('n', 1, 60), c.int('nx', 1, 12), c.int('i', 0, 59), c.int('j', 0, 59)
    if c.concrete:
        i, j = i % n, j % n
        k, m = g.default_col_row(n)
        c.check('default_room', k * m >= n and k * (m - 1) < n)
    c.assume(c.And(n >= 1, nx >= 1, i >= 0, j >= 0, i < n, j < n))
    col, row = g.default_col_row(n, nx=nx)
    c.check('columns', col == nx)
    c.check('room', c.And(col * row >= n, col * (row - 1) < n))
    g.fig, g.plot_col = object(), col
    g._subplot_number(i)
    g._subplot_number(j)
    (a, b), (p, q) = where
    c.check('in_figure', c.And(a >= 0, a < col, b >= 0, b < row))
    c.check('own', c.Implies(c.And(a == p, b == q), i == j))
    c.check('reading_order', c.Implies(i < j, c.Or(b < q, c.And(b == q, a < p))))


class Axes:
    """records what is drawn"""
    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: self.calls.append((name, a, k))


@contract('C25', 'bands', [P + 'add_bands', P + 'add_x_bands', P + 'add_y_bands', P + 'add_x_marker', P + 'add_y_marker'], runs=60)
def _(c):
    """error bands are the errors about the values given, nearest the line last; markers are at their coordinate"""
    plots = c.module('getdist.plots')
    g = c.partial(plots.GetDistPlotter)
    g.auto_close, g.fig, g._last_ax, g.subplots = False, None, None, None
    g.settings = plots.GetDistPlotSettings()
    n = c.dim('n')
    x, y, e = c.array('x', (n,)), c.array('y', (n,)), c.array('e', (n,))
    nb = c.option('bands', [1, 2, 3])
    flat = c.flag('scalar')
    y0 = c.real('y0')
    ax = Axes()
    g.add_bands(x, y0 if flat else y, e, nbands=nb, lw_center=c.option('center', [None, 1]), ax=ax)
    fills = [t for t in ax.calls if t[0] == 'fill_between']
    c.check('count', len(fills) == nb)
    yy = (lambda i: y0) if flat else (lambda i: c.at(y, i))
    for q, t in enumerate(fills):
        s = nb - q
        c.check_is('x', t[1][0], x)
        c.check_arr('below%d' % s, t[1][1], (n,), lambda i: yy(i) - s * c.at(e, i))
        c.check_arr('above%d' % s, t[1][2], (n,), lambda i: yy(i) + s * c.at(e, i))
    for t in [t for t in ax.calls if t[0] == 'plot']:
        c.check_arr('line', t[1][1], (n,), yy)
    for f, name in ((g.add_x_bands, 'axvspan'), (g.add_y_bands, 'axhspan')):
        ax = Axes()
        v, s = c.real('v'), c.real('s', pos=True)
        two = c.flag('two')
        f(v, s, ax=ax, **({} if two else {'alpha1': 0}))
        c.check('spans', [t[0] for t in ax.calls] == [name] * (2 if two else 1))
        c.check_eq('two_sigma', ax.calls[0][1][1] - ax.calls[0][1][0], 4 * s)
        c.check_eq('middle', ax.calls[0][1][1] + ax.calls[0][1][0], 2 * v)
        if two:
            c.check_eq('one_sigma', ax.calls[1][1][1] - ax.calls[1][1][0], 2 * s)
            c.check_eq('middle1', ax.calls[1][1][1] + ax.calls[1][1][0], 2 * v)
    ax = Axes()
    v = c.real('v')
    g.add_x_marker(v, ax=ax)
    g.add_y_marker(v, ax=ax)
    c.check('marked', [t[0] for t in ax.calls] == ['axvline', 'axhline'])
    for t in ax.calls:
        c.check_eq('at', t[1][0], v)


@contract('C25', 'legend', [P + 'add_legend', P + '_default_legend_labels', P + '_root_display_name', P + 'finish_plot', P + 'triangle_plot', P + 'plots_1d'], symbolic=False, runs=25, timeout=300)
def _(c):
    """each name in a legend stands beside the colour its samples are drawn in"""
    plots = c.module('getdist.plots')
    names = ('a', 'b')
    k = c.int('roots', 2, 3)
    data, make = sets(c, k, names)
    S = [make(i) for i in range(k)]
    kind = c.option('kind', ['1d', '2d', 'triangle', 'by_hand'])
    filled = kind != '1d' and c.flag('filled')
    with canvas() as calls:
        import matplotlib
        rgb = lambda q: tuple(np.round(matplotlib.colors.to_rgb(q), 6))      # noqa: E731
        g = plots.get_subplot_plotter(subplot_size=1.5)
        labels = c.option('labels', [None, ['first', 'second', 'third']])
        order = c.option('order', [None, -1, 'list'])
        ix = list(range(k))
        if order == -1:
            ix = ix[::-1]
        elif order == 'list':
            ix = order = [1, 0] + ([2] if k == 3 else [])
        kw = dict(legend_labels=labels[:k] if labels else None, label_order=order)
        if kind == '1d':
            g.plots_1d(S, ['a', 'b'], **kw)
        elif kind == '2d':
            g.plots_2d(S, 'a', ['b'], filled=filled, **kw)
        elif kind == 'triangle':
            g.triangle_plot(S, ['a', 'b'], filled=filled, **kw)
        else:
            g.make_figure(1)
            g.plot_2d(S, 'a', 'b', filled=filled)
            g.add_legend(labels[:k] if labels else ['set %d' % i for i in range(k)], label_order=order)
        if kind == '1d':
            ax = g.subplots[0, 0]
            cols = [rgb(l.get_color()) for l in ax.lines]
        else:
            ax = g.subplots[1, 0] if kind == 'triangle' else g.subplots[0, 0]
            cols = [rgb(t[3]['colors'][-1]) for t in calls if t[0] is ax and t[1] == ('fill' if filled else 'line')]
        c.check('drawn', len(cols) == k and len(set(cols)) == k)
        if kind == 'triangle':
            c.check('same_colors', [rgb(l.get_color()) for l in g.subplots[0, 0].lines] == cols)
        got = [(t.get_text(), rgb(h.get_facecolor() if isinstance(h, matplotlib.patches.Patch) else h.get_color()))
               for t, h in zip(g.legend.get_texts(), g.legend.legendHandles)]
        want = [((labels[i] if labels else 'set %d' % i), cols[i]) for i in ix]
        c.check('legend', got == want, lambda: '%s, expected %s' % (got, want))


class Root:
    """a set of samples with these names"""
    def __init__(self, pn):
        self.paramNames = pn


@contract('C25', 'points_any', [P + 'add_3d_scatter', P + 'get_param_array'], runs=60)
def _(c):
    """for any unit-weight samples: the points and colours are the columns of the named parameters, row by row"""
    plots, pn = c.module('getdist.plots'), c.module('getdist.paramnames')
    g = c.partial(plots.GetDistPlotter)
    g.auto_close, g.fig, g._last_ax, g.subplots = False, None, None, None
    g.settings = plots.GetDistPlotSettings()
    n = c.dim('n')
    pts = c.array('pts', (n, 3))
    root = Root(pn.ParamNames(names=['a', 'b', 'q']))
    g.param_name_sets = {root: root.paramNames}

    class An:
        def load_single_samples(self, r):
            return pts
    g.sample_analyser = An()
    use = c.option('use', [('a', 'b', 'q'), ('q', 'a', 'b'), ('b', 'q', 'a')])
    cols = [('a', 'b', 'q').index(u) for u in use]
    ax = Axes()
    (x0, x1), (y0, y1) = g.add_3d_scatter(root, list(use), color_bar=False, ax=ax)
    name, a, k = ax.calls[0]
    c.check('drawn', len(ax.calls) == 1 and name == 'scatter')
    c.check_arr('x', a[0], (n,), lambda i: c.at(pts, i, cols[0]))
    c.check_arr('y', a[1], (n,), lambda i: c.at(pts, i, cols[1]))
    c.check_arr('color', k['c'], (n,), lambda i: c.at(pts, i, cols[2]))
    for lo, hi, j in ((x0, x1, cols[0]), (y0, y1, cols[1])):
        mn, mx = c.min(n, lambda i: c.at(pts, i, j)), c.max(n, lambda i: c.at(pts, i, j))
        c.check_eq('lower', lo, mn - (mx - mn) / 20)
        c.check_eq('upper', hi, mx + (mx - mn) / 20)


@contract('C25', 'line_any', [P + 'add_1d', P + '_check_param', P + '_get_line_styles', P + '_get_plot_args', P + '_get_default_ls'], runs=60)
def _(c):
    """for any density of the samples: the line drawn is that density, or it over its integral; the density itself is left alone"""
    from contracts.c08_densities import density1
    plots, pn = c.module('getdist.plots'), c.module('getdist.paramnames')
    b = density1(c)
    I = b.int(b.p)
    c.assume(I > 0)
    g = c.partial(plots.GetDistPlotter)
    g.auto_close, g.fig, g._last_ax, g.subplots, g.lines_added, g._ax_width = False, None, None, None, {}, 3
    g.settings = plots.GetDistPlotSettings()
    g.settings.plot_args = c.option('plot_args', [None, {'lw': 2}, [{'lw': 2}, None]])
    kept = copy.deepcopy(g.settings.plot_args)
    root = Root(pn.ParamNames(names=['a', 'b', 'q']))
    g.param_name_sets = {root: root.paramNames}

    class An:
        def get_density(self, r, param, likes=False):
            c.check('asked_for', r is root and param.name == 'b')
            return b.d
    g.sample_analyser = An()
    norm = c.option('normalized', [None, True, False])
    g.settings.norm_1d_density = c.flag('default')
    drawn = []

    class Ax(Axes):
        def plot(self, x, y, **k):
            drawn.append((x, y, k))
            return [self]
    lo, hi = g.add_1d(root, 'b', plotno=c.option('plotno', [0, 1]), normalized=norm, ax=Ax())
    by = norm if norm is not None else g.settings.norm_1d_density
    c.check('one', len(drawn) == 1)
    c.check_arr('x', drawn[0][0], (b.n,), lambda i: b.x0 + b.h * i)
    c.check_arr('density', drawn[0][1], (b.n,), lambda i: b.p(i) / I if by else b.p(i))
    c.check_arr('kept', b.d.P, (b.n,), b.p)
    c.check_eq('from', lo, b.x0)
    c.check_eq('to', hi, b.x0 + b.h * (b.n - 1))
    c.check('settings', g.settings.plot_args == kept)


@contract('C25', 'contours_any', [P + 'add_2d_contours', P + 'add_2d_density_contours', P + 'get_param_array'], runs=60)
def _(c):
    """for any 2D density: what is drawn is that density on its grid, at its levels from the lowest up, and above them all for filled contours"""
    plots, pn, de = c.module('getdist.plots'), c.module('getdist.paramnames'), c.module('getdist.densities')
    nx, ny = c.dim('nx', lo=3, hi=8), c.dim('ny', lo=3, hi=8)
    x0, hx, y0, hy = c.real('x0'), c.real('hx', pos=True), c.real('y0'), c.real('hy', pos=True)
    Pm = c.array('P', (ny, nx), gen=lambda r, d: r.rand(*d), pred=lambda t: t >= 0)
    if c.concrete:
        x, y = x0 + hx * np.arange(int(nx)), y0 + hy * np.arange(int(ny))
    else:
        x, y = c.new((nx,), lambda i: x0 + hx * i), c.new((ny,), lambda i: y0 + hy * i)
    d = de.Density2D(x, y, Pm)
    nc = c.option('levels', [1, 2])
    l1 = c.real('l1', pos=True)
    l2 = l1 + c.real('gap', pos=True)
    d.contours = [l2, l1][:nc]
    g = c.partial(plots.GetDistPlotter)
    g.auto_close, g.fig, g._last_ax, g.subplots, g.contours_added, g._ax_width = False, None, None, None, [], 3
    g.settings = plots.GetDistPlotSettings()
    root = Root(pn.ParamNames(names=['a', 'b', 'q']))
    g.param_name_sets = {root: root.paramNames}

    class An:
        def get_density_grid(self, r, p1, p2, conts=2, likes=False):
            c.check('asked_for', r is root and (p1.name, p2.name) == ('q', 'a') and conts == g.settings.num_plot_contours)
            return d
    g.sample_analyser = An()
    drawn = []

    class Ax(Axes):
        getdist_params = None

        def contour(self, *a, **k):
            drawn.append(('line', a, k))
            return self

        def contourf(self, *a, **k):
            drawn.append(('fill', a, k))
            return self
        tcolors = [[(0, 0, 0, 1)]]
        collections = ()
    filled = c.concrete and c.flag('filled')
    bx, by = g.add_2d_contours(root, 'q', 'a', filled=filled, ax=Ax()) if c.flag('root') else g.add_2d_density_contours(d, filled=filled, ax=Ax())
    kind, a, k = drawn[0]
    c.check('kind', kind == ('fill' if filled else 'line'))
    c.check_arr('x', a[0], (nx,), lambda i: x0 + hx * i)
    c.check_arr('y', a[1], (ny,), lambda i: y0 + hy * i)
    c.check_arr('density', a[2], (ny, nx), lambda i, j: c.at(Pm, i, j))
    want = [l1, l2] if nc == 2 else [l2]
    lev = list(a[3])
    c.check('number', len(lev) == nc + (1 if filled else 0))
    c.check_eq('x_from', bx[0], x0)
    c.check_eq('x_to', bx[1], x0 + hx * (nx - 1))
    c.check_eq('y_from', by[0], y0)
    c.check_eq('y_to', by[1], y0 + hy * (ny - 1))
    if not filled:
        for q in range(nc):
            c.check_eq('level', lev[q], want[q])
