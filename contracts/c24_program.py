"""C24: the analysis program reports what the samples say"""
import contextlib
import io
import logging
import math
import os
import tempfile
import numpy as np
from pyvc.api import contract, Skip

M = 'getdist.mcsamples:MCSamples.'
P = 'getdist.command_line:'


def wcov(X, w):
    d = X - np.average(X, axis=0, weights=w)
    return np.dot(d.T * w, d) / w.sum()


def corr(cv):
    s = np.sqrt(np.diag(cv))
    return cv / np.outer(s, s)


@contextlib.contextmanager
def quiet(d=None):
    """no output; in the scratch folder d"""
    cwd, lev = os.getcwd(), logging.getLogger().level
    logging.getLogger().setLevel(logging.CRITICAL)
    try:
        if d:
            os.chdir(d)
        with contextlib.redirect_stdout(io.StringIO()), np.errstate(all='ignore'):
            yield
    finally:
        logging.getLogger().setLevel(lev)
        os.chdir(cwd)


def correlated(r, n, p, pos):
    A = r.randn(p, p)
    X = np.dot(r.randn(n, p), A) * 10 ** r.uniform(-1, 1, p)
    for j in range(p):
        if pos[j] == 'L':
            X[:, j] = np.exp(X[:, j] / X[:, j].std() * 0.3) * 10 ** r.uniform(-2, 2)
        elif pos[j] == 'M':
            X[:, j] = -np.exp(X[:, j] / X[:, j].std() * 0.3)
        else:
            X[:, j] -= r.randn() * X[:, j].std()
    return X


def close(a, b, fmt):
    """the printed number is this one, to its figures"""
    a = float(a)
    if fmt == 'f':
        return abs(a - b) <= 2e-6 + 1e-6 * abs(b)
    return abs(a - b) <= 0.51 * 10. ** -fmt + 1e-7 * abs(b)


@contract('C24', 'components', [M + 'PCA'], symbolic=False, runs=150)
def _(c):
    """eigenvalues, directions, power-law form, mean and error of each component, and its correlation with every parameter"""
    mcs = c.module('getdist.mcsamples')
    c.module('getdist.chains').print_load_details = False
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    p, n = c.int('p', 2, 4), c.int('rows', 30, 80)
    kinds = c._in('map', lambda: tuple(c.rng.choice('NLM') for _ in range(4)))[:p]
    if c.flag('plain'):
        kinds = ('N',) * p
    X = correlated(r, n, p, kinds)
    w = r.randint(1, 5, n) * r.uniform(0.1, 2)
    names = ['p%d' % i for i in range(p)]
    with quiet():
        s = mcs.MCSamples(samples=X.copy(), weights=w.copy(), names=names, labels=['L_%d' % i for i in range(p)], settings={'ignore_rows': 0})
        use = sorted(c._in('use', lambda: tuple(c.rng.sample(range(4), c.rng.choice([2, 2, 3, 4])))))
        use = [u for u in use if u < p]
        if len(use) < 2:
            raise Skip
        rest = [j for j in range(p) if j not in use]
        cond = [rest[0]] if rest and c.flag('conditional') else []
        norm = c.option('normalise', [None, 0, 1])
        pm = [kinds[j] for j in use]
        given = c.option('given', ['str', 'list', 'default'])
        args = dict(param_map=''.join(pm) if given == 'str' else pm)
        if given == 'default':
            # log of what is well away from zero
            args = {}
            pm = []
            for j in use:
                par = s.paramNames.names[j]
                s._initParamRanges(par.name)
                pm.append('N' if par.param_max < 0 or par.param_min < (par.param_max - par.param_min) / 10 else 'L')
        if norm is not None:
            args['normparam'] = names[use[norm]]
        if cond:
            args['conditional_params'] = [names[j] for j in cond]
        with tempfile.TemporaryDirectory() as d:
            text = s.PCA([names[j] for j in use] + (['none'] if c.flag('unknown') else []), writeDataToFile=True, filename=d + '/x.PCA', **args)
            c.check('file', open(d + '/x.PCA', encoding='utf-8').read() == text)
        best = s.PCA([names[j] for j in use], n_best_only=c.option('best', [1, 2]), **args)
    # the definitions
    k = len(use)
    cols = []
    for j, m in zip(use + cond, pm + ['N'] * len(cond)):
        cols.append({'N': X[:, j], 'L': np.log(np.abs(X[:, j])), 'M': np.log(np.abs(X[:, j]))}[m])
    Y = np.array(cols).T
    mean, sd = np.average(Y, axis=0, weights=w), np.sqrt(np.diag(wcov(Y, w)))
    R = corr(wcov(Y, w))
    u = np.linalg.inv(np.linalg.inv(R)[:k, :k]) if cond else R
    ev, vec = np.linalg.eigh(u)
    if np.min(np.diff(ev)) < 1e-3:
        raise Skip
    Z = ((Y - mean) / sd)[:, :k]
    modes = vec.T.copy()
    for i in range(k):
        a = np.abs(modes[i])
        if norm is not None:
            if a[norm] < 1e-2:
                raise Skip
            q = norm
        else:
            q = int(np.argmax(a))
            if np.sort(a)[-2] > 0.98 * a[q]:
                raise Skip
        modes[i] *= sd[q] / modes[i][q]
    doexp = any(m in 'LM' for m in pm)
    C = np.dot(Z, modes.T)
    if doexp:
        if np.max(np.abs(C)) > 30:
            raise Skip
        C = np.exp(C)
    cm = np.average(C, axis=0, weights=w)
    cs = np.sqrt(np.diag(wcov(C, w)))
    lines = text.split('\n')
    at = lambda t: [i for i, l in enumerate(lines) if l.startswith(t)][0]      # noqa: E731
    lab = [{'N': 'L_%d', 'L': 'ln(L_%d)', 'M': 'ln(-L_%d)'}[m] % j for j, m in zip(use, pm)]
    c.check('parameters', [l.split(':') for l in lines[1:1 + k]] == [['%10s ' % (j + 1), q] for j, q in zip(use, lab)], lambda: '%s' % lines[1:1 + k])
    a = at('Correlation matrix') + 1
    for i in range(k):
        row = lines[a + i].split(':')
        c.check('correlation', row[0].strip() == names[use[i]] and all(close(x, R[i][j], 4) for j, x in enumerate(row[1].split())) and len(row[1].split()) == len(use + cond))
    a = at('e-values') + 1
    for i in range(k):
        c.check('eigenvalue', lines[a + i].startswith('PC%2i:' % (i + 1)) and close(lines[a + i].split(':')[1], ev[i], 4))
    a = at('e-vectors') + 1
    for j in range(k):
        row = [float(x) for x in lines[a + j].split(':')[1].split()]
        c.check('vector', int(lines[a + j].split(':')[0]) == use[j] + 1 and all(close(abs(x), abs(vec[j][i]), 4) for i, x in enumerate(row)))
    a = at('Principle components') + 1
    first = a
    for i in range(k):
        head = lines[a]
        c.check('component', head.startswith('PC%i (e-value: ' % (i + 1)) and close(head.split(':')[1].rstrip(')'), ev[i], 'f'))
        for j in range(k):
            t = lines[a + 1 + j]
            coef = t[t.index('[') + 1:t.index(']')]
            c.check('coefficient', close(coef, modes[i][j], 'f'), lambda: '%s %s' % (t, modes[i][j]))
            L = 'L_%d' % use[j]
            if pm[j] in 'LM':
                body = t[t.index('(') + 1:]
                div = body[len(L) + 1:body.index(')')]
                expo = body[body.index('{') + 1:body.index('}')]
                c.check('power', body.startswith(L + '/') and close(div, math.exp(mean[j]) * (-1 if pm[j] == 'M' else 1), 'f') and close(expo, modes[i][j] / sd[j], 'f'), t)
            else:
                want = '(%s-%f)/' % (L, mean[j])
                c.check('linear', want in t.replace('-0.000000', '0.000000') or want in t, lambda: '%s %s' % (t, want))
                c.check('exponential', ('exp(' in t) == doexp)
                sc = float(t.split('/')[-1].rstrip(')'))
                c.check('scale', abs(sc - sd[j] / modes[i][j]) <= 1e-6 * abs(sc) + 2e-6, lambda: '%s %s' % (t, sd[j] / modes[i][j]))
        val, err = lines[a + 1 + k].split('=')[1].split('+-')
        c.check('value', close(val, cm[i], 'f') and close(err, cs[i], 'f'), lambda: '%s %s %s' % (lines[a + 1 + k], cm[i], cs[i]))
        a += k + 3
    got = [best] if isinstance(best, str) else best
    full = '\n'.join(lines[first:])
    c.check('best', len(got) == (1 if isinstance(best, str) else 2) and ''.join(got) == full[:len(''.join(got))], lambda: '%s' % (got,))
    a = at('Correlations of principle') + 2
    cc = corr(wcov(np.hstack([C, X]), w))
    for i in range(k):
        row = lines[a + i]
        c.check('between', row.startswith('PC%2i' % (i + 1)) and all(close(x, cc[i][j], 3) for j, x in enumerate(row[4:].split())))
    for j in range(p):
        row = lines[a + k + j]
        c.check('with_parameter', int(row[:4]) == j + 1 and row.endswith('(L_%d)' % j) and all(close(row[4 + 8 * i:12 + 8 * i], cc[i][k + j], 3) for i in range(k)), row)


@contract('C24', 'correlated_pairs', [M + 'getCorrelatedVariable2DPlots'], symbolic=False, runs=200)
def _(c):
    """the pairs are those of largest correlation, in order"""
    mcs = c.module('getdist.mcsamples')
    c.module('getdist.chains').print_load_details = False
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    p, n = c.int('p', 2, 6), c.int('rows', 10, 40)
    X = np.dot(r.randn(n, p), r.randn(p, p))
    w = r.rand(n) + 0.1
    der = c.int('derived', 0, p - 2)
    names = ['q%d' % i + ('*' if i >= p - der else '') for i in range(p)]
    with quiet():
        s = mcs.MCSamples(samples=X, weights=w, names=names, settings={'ignore_rows': 0})
        num, lim = c.option('num', [None, 1, 3, 30]), c.option('nparam', [None, 2, p])
        kw = {} if num is None else {'num_plots': num}
        if lim is not None:
            kw['nparam'] = lim
        got = s.getCorrelatedVariable2DPlots(**kw)
    R = np.abs(corr(wcov(X, w)))
    m = lim or p - der
    pairs = sorted(((R[i][j], 'q%d' % i, 'q%d' % j) for i in range(m) for j in range(i + 1, m)), reverse=True)
    c.check('pairs', [list(x) for x in got] == [[a, b] for _, a, b in pairs[:num or 12]])


@contract('C24', 'sample_summary', [M + 'getNumSampleSummaryText'], symbolic=False, runs=100)
def _(c):
    mcs = c.module('getdist.mcsamples')
    c.module('getdist.chains').print_load_details = False
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n, p = c.int('rows', 5, 200), c.int('p', 1, 4)
    w = {'int': r.randint(1, 6, n).astype(float), 'real': r.rand(n) + 0.01, 'unit': np.ones(n)}[c.option('kind', ['int', 'real', 'unit'])]
    with quiet():
        s = mcs.MCSamples(samples=r.randn(n, p), weights=w.copy(), names=['q%d' % i for i in range(p)], settings={'ignore_rows': 0})
        f = c.flag('filter')
        if f:
            keep = np.arange(n) % 3 != 0
            s.filter(keep)
            w = w[keep]
        t = s.getNumSampleSummaryText()
    import re
    m = re.match(r'using (\d+) rows, (\d+) parameters; mean weight (\S+), tot weight (\S+)\n', t)
    c.check('form', m is not None, t)
    c.check('counts', int(m.group(1)) == len(w) and int(m.group(2)) == p and abs(float(m.group(3)) - w.mean()) < 1e-9 * w.mean() and abs(float(m.group(4)) - w.sum()) < 1e-9 * w.sum(), t)
    q = re.search(r'\(sum w\)/max\(w\): (\S+)\n', t)
    c.check('equivalent', abs(float(q.group(1)) - w.sum() / w.max()) <= 0.5001, t)
    q = re.search(r'\(sum w\)\^2/sum\(w\^2\): (\S+)\n', t)
    c.check('effective', abs(float(q.group(1)) - w.sum() ** 2 / np.dot(w, w)) <= 1, t)


@contract('C24', 'program', [P + 'getdist_command', P + 'getdist_script', M + 'writeThinData', M + 'writeCovMatrix', M + 'writeCorrelationMatrix', M + '_writeScriptPlots1D', M + '_writeScriptPlots2D',
                             M + '_writeScriptPlotsTri', M + '_writeScriptPlots3D', M + '_WritePlotFile'], symbolic=False, runs=60)
def _(c):
    """the files of a run hold the numbers of the chains chosen, and nothing else is written"""
    cl, mcs, ty, cv = c.module('getdist.command_line'), c.module('getdist.mcsamples'), c.module('getdist.types'), c.module('getdist.covmat')
    chm, gd = c.module('getdist.chains'), c.module('getdist')
    chm.print_load_details = False
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    m, p = c.int('chains', 2, 3), c.int('p', 2, 3)
    derived, fixed = c.flag('derived'), c.flag('fixed')
    cols = ['x%d' % i for i in range(p)] + (['f'] if fixed else []) + (['d*'] if derived else [])
    A = r.randn(p, p) + np.eye(p)
    data = []
    for q in range(m):
        n = r.randint(150, 250)
        X = np.dot(r.randn(n, p), A) + 3
        if fixed:
            X = np.hstack([X, np.full((n, 1), 2.5)])
        if derived:
            X = np.hstack([X, X[:, :1] ** 2 + X[:, 1:2]])
        data.append((r.randint(1, 4, n).astype(float), r.rand(n) * 3 + 4, X))
    with tempfile.TemporaryDirectory() as d:
        os.makedirs(d + '/chains'), os.makedirs(d + '/work')
        root = d + '/chains/run'
        first = c.option('numbered from', [1, 2])
        for q, (w, L, X) in enumerate(data):
            np.savetxt(root + '_%d.txt' % (q + first), np.hstack([w[:, None], L[:, None], X]))
        with open(root + '.paramnames', 'w') as f:
            f.write(''.join('%s L_{%s}\n' % (x, x.rstrip('*')) for x in cols))
        with open(root + '.ranges', 'w') as f:
            f.write('x0 N N\nx1 %s N\n' % float(min(X[:, 1].min() for _, _, X in data) - 0.01))
        # settings
        ini = {'contours': '0.68 0.95', 'fine_bins': '256', 'num_bins': '50'}
        opt = lambda name, vals: c.option(name, vals)      # noqa: E731
        ign = opt('ignore_rows', ['0', '0.3', '20'])
        ini['ignore_rows'] = ign
        cool = opt('cool', [None, '1.5'])
        thin = opt('thin', [None, '3'])
        if cool:
            thin = None     # only counts can be thinned
        tcool = opt('thin_cool', [None, '2'])
        for k, v in (('cool', cool), ('thin_factor', thin), ('thin_cool', tcool), ('out_root', opt('out_root', [None, 'other'])), ('no_tests', opt('no_tests', [None, 'T'])), ('plots_only', opt('plots_only', [None, None, 'T']))):
            if v is not None:
                ini[k] = v
        sel = opt('selection', ['all', 'exclude', 'last'])
        use = list(range(m))
        if sel == 'exclude':
            ini['exclude_chain'] = str(first)
            use = use[1:]
        elif sel == 'last':
            ini['chain_num'] = str(first)
            use = use[:1]
        pca = opt('pca', [None, 'x0 x1', 'all'])
        if pca:
            ini['PCA_params'] = pca
        out = opt('out_dir', [None, 'made', 'abs'])
        if out:
            ini['out_dir'] = 'made' if out == 'made' else d + '/dist'
        plots = opt('plots', ['none', 'one', 'all'])
        ini['no_plots'] = 'T' if plots == 'none' else 'F'
        if plots == 'all':
            ini.update({'plot_params': 'x*', 'plot_2D_num': '2', 'plot1': 'x0 x1', 'plot2': 'x0 missing', 'triangle_plot': 'T', 'triangle_params': 'x1 x0', 'num_3D_plots': '1', '3D_plot1': 'x0 x1 x%d' % (p - 1)})
        how = opt('how', ['ini', 'both', 'override'])
        if how == 'ini':
            ini['file_root'] = root
        with open(d + '/s.ini', 'w') as f:
            f.write(''.join('%s = %s\n' % q for q in ini.items()))
        argv = [d + '/s.ini'] + ([] if how == 'ini' else [root])
        burn = float(ign)
        if how == 'override':
            argv += ['--ignore_rows', '0.1']
            burn = 0.1
        props = opt('properties', [None, None, 'burn_removed = T', 'ignore_rows = 0.2'])
        if props:
            with open(root + '.properties.ini', 'w') as f:
                f.write(props + '\n')
            if how != 'override':
                burn = 0. if 'removed' in props else 0.2
        before = {f: open(d + '/chains/' + f, 'rb').read() for f in os.listdir(d + '/chains')}
        old, gd.cache_dir = gd.cache_dir, None
        try:
            with quiet(d + '/work'):
                cl.getdist_command(argv)
        finally:
            gd.cache_dir = old
        c.check('chains_kept', before == {f: open(d + '/chains/' + f, 'rb').read() for f in before} and not [f for f in os.listdir(d + '/chains') if f not in before and 'py_mcsamples' not in f])
        od = {None: d + '/work', 'made': d + '/work/made', 'abs': d + '/dist'}[out]
        c.check('work', sorted(os.listdir(d + '/work')) == (['made'] if out == 'made' else sorted(os.listdir(od)) if out is None else []))
        base = ini.get('out_root', 'run')
        only = 'plots_only' in ini
        want = {base + '.covmat', base + '.corr'}
        if not only and 'no_tests' not in ini:
            want.add(base + '.converge')
        if not only:
            want |= {base + '.margestats', base + '.likestats'}
        if pca and not only:
            want.add(base + '.PCA')
        if thin:
            want.add(base + '_thin.txt')
        if plots != 'none':
            want.add(base + '.py')
        if plots == 'all':
            want |= {base + '_2D.py', base + '_tri.py', base + '_3D.py'}
        have = set(os.listdir(od))
        c.check('files', have == want, lambda: '%s want %s' % (sorted(have), sorted(want)))
        # the samples of the run
        rows = [int(burn) if burn >= 1 else int(round(len(data[q][0]) * burn)) for q in use]
        w = np.concatenate([data[q][0][k:] for q, k in zip(use, rows)])
        L = np.concatenate([data[q][1][k:] for q, k in zip(use, rows)])
        X = np.vstack([data[q][2][k:] for q, k in zip(use, rows)])
        keep = [i for i, x in enumerate(cols) if x != 'f']
        X, names = X[:, keep], [cols[i] for i in keep]
        if cool:
            T = float(cool)
            w = w * np.exp(-(T - 1) * (L - L.min()))
            L = L * T
        o = od + '/' + base
        run = [i for i, x in enumerate(names) if not x.endswith('*')]
        K = wcov(X, w)
        got = cv.CovMat(o + '.covmat')
        c.check('cov', list(got.paramNames) == [names[i] for i in run] and np.allclose(got.matrix, K[np.ix_(run, run)], rtol=1e-5, atol=1e-8), lambda: '%s %s %s' % (got.paramNames, got.matrix, K))
        c.check('corr', np.allclose(np.loadtxt(o + '.corr'), corr(K), rtol=1e-5, atol=1e-6))
        if not only:
            ms = ty.MargeStats(o + '.margestats')
            c.check('names', [q.name for q in ms.names] == [x.rstrip('*') for x in names] and [q.isDerived for q in ms.names] == [x.endswith('*') for x in names] and [q.label for q in ms.names] == ['L_{%s}' % x.rstrip('*') for x in names])
            c.check('means', np.allclose([q.mean for q in ms.names], np.average(X, axis=0, weights=w), rtol=1e-6) and np.allclose([q.err for q in ms.names], np.sqrt(np.diag(K)), rtol=1e-6))
            with quiet():
                at = np.cumsum([0] + [len(data[q][0]) - k for q, k in zip(use, rows)])
                cut = lambda v: [v[i:j].copy() for i, j in zip(at[:-1], at[1:])]      # noqa: E731
                lib = mcs.MCSamples(samples=cut(X), weights=cut(w), loglikes=cut(L), names=names, ini=d + '/s.ini', settings={'ignore_rows': 0},
                                    ranges={'x1': [float(min(Z[:, 1].min() for _, _, Z in data) - 0.01), None]})
                if 'no_tests' not in ini:
                    lib.getConvergeTests(lib.converge_test_limit)
                ref = lib.getMargeStats()
            for a, b in zip(ms.names, ref.names):
                c.check('limits', len(a.limits) == 2 and all(abs(u.lower - v.lower) < 1e-4 * b.err and abs(u.upper - v.upper) < 1e-4 * b.err and u.limitTag() == v.limitTag() for u, v in zip(a.limits, b.limits)),
                        lambda: '%s %s' % ([(u.lower, u.upper, u.limitTag()) for u in a.limits], [(u.lower, u.upper, u.limitTag()) for u in b.limits]))
            ls = ty.LikeStats(o + '.likestats')
            c.check('likes', abs(ls.logLike_sample - L.min()) < 1e-5 * L.min())
            t = [l.split() for l in open(o + '.likestats') if l.strip()][-len(names):]
            c.check('like_names', [q[0] for q in t] == names, lambda: '%s' % t)
            c.check('best_sample', np.allclose([float(q[1]) for q in t], X[L.argmin()], rtol=1e-6))
            ls = lib.getLikeStats()
            c.check('like_limits', np.allclose([[float(v) for v in q[2:6]] for q in t], [[q.ND_limit_bot[0], q.ND_limit_top[0], q.ND_limit_bot[1], q.ND_limit_top[1]] for q in ls.names], rtol=1e-6))
        if not only and pca:
            t = open(o + '.PCA').read()
            pn = ['x0', 'x1'] if pca != 'all' else [x.rstrip('*') for x in names]
            a = t[t.index('Correlation matrix'):].split('\n')[1:1 + len(pn)]
            ix = [[x.rstrip('*') for x in names].index(q) for q in pn]
            c.check('pca', [l.split(':')[0].strip() for l in a] == pn and all(np.allclose([float(v) for v in l.split(':')[1].split()], corr(K)[i][ix], atol=1.1e-4) for l, i in zip(a, ix)))
        if not only and 'no_tests' not in ini and len(use) > 1:
            R = ty.ConvergeStats(o + '.converge')
            c.check('converge', len(R.R_eigs) == len(run))
        if thin:
            th = np.loadtxt(o + '_thin.txt', ndmin=2)
            if not cool:
                k = int(thin)
                c.check('thinned', all(any(np.allclose(row[2:], x, rtol=1e-6) for x in X) for row in th[:20]) and abs(len(th) - w.sum() / k) <= 1.01)
            ord_ = [int(np.argmin(np.abs(X - row[2:]).sum(axis=1))) for row in th]
            c.check('thin_order', ord_ == sorted(ord_))
            tc = float(tcool) if tcool else 1.
            c.check('thin_like', np.allclose(th[:, 1], tc * L[ord_], rtol=1e-6))
            wt = np.exp(-(tc - 1) * L[ord_])
            c.check('thin_weight', np.allclose(th[:, 0] / th[0, 0], wt / wt[0], rtol=1e-5))
        if plots != 'none':
            calls = {}
            for tag in ('', '_2D', '_tri', '_3D')[:4 if plots == 'all' else 1]:
                src = open(o + tag + '.py').read()
                compile(src, 'plot', 'exec')
                calls[tag] = plot_calls(src)
            allp = [x.rstrip('*') for x in names]
            c.check('plot_1d', calls[''] == ('plots_1d', [x for x in allp if x.startswith('x')] if plots == 'all' else None), lambda: '%s' % (calls,))
            if plots == 'all':
                c.check('plot_2d', calls['_2D'] == ('plots_2d', [['x0', 'x1']]), lambda: '%s' % (calls,))
                c.check('plot_tri', calls['_tri'] == ('triangle_plot', ['x1', 'x0']))
                c.check('plot_3d', calls['_3D'] == ('plots_3d', [['x0', 'x1', 'x%d' % (p - 1)]]))


def plot_calls(src):
    """run a plot script with a recording plotter: (method, parameters)"""
    out = []

    class G:
        def __getattr__(self, k):
            def f(*a, **kw):
                if k in ('plots_1d', 'plots_2d', 'triangle_plot', 'plots_3d'):
                    out.append((k, kw.get('param_pairs', a[1] if len(a) > 1 else kw.get('params'))))
                return self
            return f
    import ast
    tree = ast.parse(src)
    body = [s for s in tree.body if not isinstance(s, (ast.Import, ast.ImportFrom))]
    env = {'gplot': G(), 'plots': G(), 'plot': G(), 'g': G(), 'os': os, 'sys': __import__('sys')}
    for s in body:
        try:
            exec(compile(ast.Module([s], []), 'plot', 'exec'), env)
        except Exception:
            pass
    return out[0] if len(out) == 1 else tuple(out)


# ------------------------------------------------------------------------------------------ proof: the pairs of largest correlation, for any matrix
from pyvc.specs import LoopSpec, loopspec      # noqa: E402


def pair_loop(k):
    class PairLoop(LoopSpec):
        """of the pairs looked at, try_b is the largest correlation below try_t, and x, y has it"""
        proof_only = True

        def applies(self, loop, it):
            from pyvc.core import cur
            return super().applies(loop, it) and hasattr(cur(), 'pairs')

        def invariant(self, loop, st, at):
            from pyvc.core import cur, lift
            import z3
            G = cur().pairs
            real = lambda v: z3.ToReal(lift(v)) if z3.is_int(lift(v)) else lift(v)      # noqa: E731
            T = real(st['try_t'])
            if k == 0:
                return [('below', T == G.prev), ('count', G.count == at), ('bound', T <= 100000)]
            B, x, y = real(st['try_b']), lift(st['x']), lift(st['y'])
            a, b = z3.Ints('__a __b')
            done = a < at if k == 1 else z3.Or(a < lift(st['ix1']), z3.And(a == lift(st['ix1']), b < lift(st['ix1']) + 1 + at))
            v = G.size(a, b)
            return [('largest', z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < G.n, done, v < T), v <= B), patterns=[G.raw(a, b)])),
                    ('is one', z3.Or(B == -100000, z3.And(x >= 0, x < y, y < G.n, B == G.size(x, y), B < T)))]

        def havoc(self, loop, st):
            from pyvc.core import cur, wrap
            import z3
            ctx = cur()
            G = ctx.pairs
            loop.modifies = []
            new = {'x': wrap(ctx.index('x')), 'y': wrap(ctx.index('y'))}
            if k == 0:
                new['try_t'] = wrap(ctx.fresh('try_t', z3.RealSort()))
                G.prev, G.count = ctx.fresh('before', z3.RealSort()), ctx.fresh('given', z3.IntSort())
            else:
                new['try_b'] = wrap(ctx.fresh('try_b', z3.RealSort()))
            st = dict(st, **new)
            for nm, f in self.invariant(loop, st, loop.k):
                ctx.assume(f)
            return new
    loopspec('getdist.mcsamples', 'MCSamples.getCorrelatedVariable2DPlots', k)(PairLoop)


for _k in range(3):
    pair_loop(_k)


class Pairs:
    """the list of pairs, given out one by one"""

    def __init__(self, c, raw, n, count):
        import z3
        self.c, self.raw, self.n, self.num = c, raw, n, count
        self.prev, self.count = z3.RealVal(100000), z3.IntVal(0)

    def size(self, a, b):
        import z3
        v = self.raw(a, b)
        return z3.If(v >= 0, v, -v)

    def none_left(self):
        import z3
        a, b = z3.Ints('__a __b')
        return z3.Not(z3.Exists([a, b], z3.And(a >= 0, a < b, b < self.n, self.size(a, b) < self.prev)))

    def append(self, pair):
        import z3
        x, y = pair
        a, b = z3.Ints('__a __b')
        self.c.check('pair', z3.And(x >= 0, x < y, y < self.n))
        self.c.check('smaller', self.size(x, y) < self.prev)
        self.c.check('next', z3.ForAll([a, b], z3.Implies(z3.And(a >= 0, a < b, b < self.n, self.size(a, b) < self.prev), self.size(a, b) <= self.size(x, y)), patterns=[self.raw(a, b)]))
        self.prev, self.count = self.size(x, y), z3.simplify(self.count + 1)


@contract('C24', 'pairs_any', [M + 'getCorrelatedVariable2DPlots'], bounded=False, concrete=False, timeout=120, note='any correlations, any numbers of parameters and pairs; entries of equal size count once')
def _(c):
    """each pair given is of the largest correlation below the one before, until there are as many as asked for or none is left"""
    import z3
    from types import SimpleNamespace
    from pyvc.core import cur, lift
    ctx = cur()
    s = c.partial(c.module('getdist.mcsamples').MCSamples)
    p = c.dim('p', lo=2)
    R = c.array('R', (p, p), pred=lambda x: c.And(x <= 1, x >= -1))
    m, num, nd = c.int('nparam', 2), c.int('num', 0), c.int('running', 2)
    given = c.flag('given')
    n = m if given else nd
    c.assume(n <= p)
    G = ctx.pairs = Pairs(c, lambda a, b: R.elem(a, b), lift(n), lift(num))
    ctx.empty_list = lambda: G
    s.getCorrelationMatrix = lambda: R
    s.parName = lambda i, starDerived=False: lift(i)
    s.paramNames = SimpleNamespace(numNonDerived=lambda: nd)
    out = s.getCorrelatedVariable2DPlots(num, m if given else None)
    c.check_is('given', out, G)
    c.check('complete', z3.Or(G.count == lift(num), G.none_left()))
    c.check('no_more', G.count <= lift(num))
