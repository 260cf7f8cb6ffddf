"""C21: Cobaya models are translated without loss or side effects"""
import contextlib
import copy
import io
import os
import tempfile
import numpy as np
from pyvc.api import contract, Skip

C = 'getdist.cobaya_interface:'
FORMS = ['list', 'tuple', 'minmax', 'min', 'max', 'uniform', 'number', 'value', 'derived', 'derived-min', 'derived-both', 'function', 'function-kept']


@contract('C21', 'range', [C + 'get_range', C + 'is_sampled_param', C + 'is_derived_param', C + 'fixed_value', C + 'expand_info_param'])
def _(c):
    """the range of a parameter is the one declared, whichever way it is written, and its description is not changed"""
    m = c.module('getdist.cobaya_interface')
    a, b = c.real('a'), c.real('b')
    form = c.option('form', FORMS)
    info = {'list': {'prior': [a, b]}, 'tuple': {'prior': (a, b), 'latex': 'x'}, 'minmax': {'prior': {'min': a, 'max': b}}, 'min': {'prior': {'min': a}}, 'max': {'prior': {'max': b}},
            'uniform': {'prior': {'dist': 'uniform', 'min': a, 'max': b}}, 'number': a, 'value': {'value': a, 'latex': 'y'}, 'derived': None,
            'derived-min': {'min': a, 'latex': 'z'}, 'derived-both': {'derived': True, 'min': a, 'max': b}, 'function': {'value': 'lambda x: x', 'min': a},
            'function-kept': {'value': 'lambda x: x', 'derived': False, 'max': b}}[form]
    lo = {'max': None, 'derived': None, 'function-kept': None}.get(form, a)
    hi = {'min': None, 'derived': None, 'derived-min': None, 'function': None, 'number': a, 'value': a}.get(form, b)
    for k in range(2):
        r = m.get_range(info)
        c.check('two', len(r) == 2)
        for got, want in zip(r, (lo, hi)):
            if want is None:
                c.check('no limit', got is None)
            else:
                c.check('limit', got is not None)
                c.check_eq('value', got, want)
    bad = c.option('bad', [[a], [a, b, a], 'uniform', 3])
    c.check('unreadable', c.raises(Exception, lambda: m.get_range({'prior': bad})))
    kind = 'sampled' if form in FORMS[:6] else 'fixed' if form in ('number', 'value', 'function-kept') else 'derived'
    c.check('sampled', bool(m.is_sampled_param(info)) == (kind == 'sampled'))
    c.check('derived', bool(m.is_derived_param(info)) == (kind == 'derived'))


def draw(c, r, post=True, functions=True):
    """a Cobaya description with what it declares: {name: (kind, label, lower, upper, renames)}"""
    names = ['As', 'ns', 'H0', 'omk', 'sigma8', 'tau', 'mnu', 'theta_s', 'x1', 'Ω']
    order = list(c._in('order', lambda: tuple(c.rng.sample(names, c.rng.randint(1, len(names))))))
    info, want = {'params': {}}, {}
    for p in order:
        info['params'][p], want[p] = param(c, p, r, functions)
    info['likelihood'] = {k: None for k in c._in('likes', lambda: tuple(c.rng.sample(['plik.lite', 'bao_x', 'one', 'sn'], c.rng.randint(1, 3))))}
    pr = c.option('prior', [None, {}, {'SZ_p': 'lambda a: a', 'b2': 'lambda b: b'}])
    if pr is not None or c.flag('prior none'):
        info['prior'] = copy.deepcopy(pr)
    samp = c.option('sampler', [None, 'mcmc', 'polychord', 'minimize'])
    if samp:
        info['sampler'] = {samp: c.option('sampler opts', [None, {'a': 1}])}
    label = c.option('label', [None, 'a $x$'])
    if label:
        info['label'] = label
    likes, priors, skip = list(info['likelihood']), ['0'] + list(pr or []), 0
    if c.flag('names only'):
        info['likelihood'] = c.option('names as', [list, tuple])(likes)
    if post and c.flag('post'):
        q = info['post'] = {}
        if c.flag('skip'):
            skip = q['skip'] = c.option('skipped', [0.3, 100])
        if c.flag('remove'):
            rm = q['remove'] = {}
            k = c.option('rm', ['params', 'param', 'likelihood', 'like list', 'prior', 'none'])
            if k == 'params':
                rm['params'] = {p: None for p in order[:2]}
                gone = order[:2]
            elif k == 'param':
                rm['params'] = order[0]
                gone = order[:1]
            else:
                gone = []
            for p in gone:
                want.pop(p)
            if k == 'likelihood':
                rm['likelihood'] = likes[0]
                likes = likes[1:]
            elif k == 'like list':
                rm['likelihood'] = [likes[0]]
                likes = likes[1:]
            elif k == 'prior' and pr:
                rm['prior'] = 'b2'
                priors.remove('b2')
            elif k == 'none':
                rm['params'] = rm['likelihood'] = rm['prior'] = None
        if c.flag('add'):
            ad = q['add'] = {}
            k = c.option('ad', ['derived', 'none derived', 'update', 'like', 'prior'])
            if k == 'derived':
                ad['params'] = {'S8': {'latex': 'S_8', 'min': 0.5}}
                want['S8'] = ('derived', 'S_8', 0.5, None, [])
            elif k == 'none derived':
                ad['params'] = {'S8': None}
                want['S8'] = ('derived', 'S8', None, None, [])
            elif k == 'update':
                p = c.option('which', order)
                if p in want and want[p][0] == 'sampled':
                    ad['params'] = {p: {'prior': [0.25, 0.75]}}
                    want[p] = ('sampled', want[p][1], 0.25, 0.75, want[p][4])
                elif p in want and want[p][0] == 'derived':
                    ad['params'] = {p: {'latex': 'new'}}
                    want[p] = (want[p][0], 'new') + want[p][2:]
            elif k == 'like':
                ad['likelihood'] = {'added_like': None}
                likes.append('added_like')
            else:
                ad['prior'] = {'newprior': 'lambda a: a'}
                priors.append('newprior')
    want['minuslogprior'] = ('derived', r'-\log\pi', None, None, [])
    for x in priors:
        want['minuslogprior__' + x] = ('derived', r'-\log\pi_\mathrm{%s}' % x.replace('_', r'\ '), None, None, [])
    want['chi2'] = ('derived', r'\chi^2', None, None, [])
    for x in likes:
        want['chi2__' + x] = ('derived', r'\chi^2_\mathrm{%s}' % x.replace('_', r'\ '), None, None, [])
    return info, want, dict(sampler={None: 'mcmc', 'mcmc': 'mcmc', 'polychord': 'nested', 'minimize': 'minimize'}[samp], label=label, skip=skip)


def param(c, p, r, functions):
    forms = ['list', 'minmax', 'min', 'uniform-loc', 'norm', 'norm-default', 'norm-min', 'beta', 'number', 'value', 'derived-none', 'derived', 'derived-range', 'string', 'string-dict',
             'string-hidden'] + (['function', 'function-hidden'] if functions else [])
    form = c.option('form ' + p, forms)
    a = float(np.round(r.uniform(-2, 1), 4))
    b = a + 1.5
    d = {}
    label, ren = p, []
    if c.flag('latex ' + p):
        d['latex'] = label = 'L_{%s}' % p
    if c.flag('renames ' + p):
        d['renames'] = ren = ['old' + p, 'o2' + p]
    lo = hi = None
    kind = 'sampled'
    if form == 'list':
        d['prior'], lo, hi = [a, b], a, b
    elif form == 'minmax':
        d['prior'], lo, hi = {'min': a, 'max': b}, a, b
    elif form == 'min':
        d['prior'], lo = {'min': a}, a
    elif form == 'uniform-loc':
        d['prior'], lo, hi = {'loc': a, 'scale': 1.5}, a, a + 1.5
    elif form == 'norm':
        d['prior'] = {'dist': 'norm', 'loc': a, 'scale': 0.1}
    elif form == 'norm-default':
        d['prior'] = {'dist': 'norm'}
    elif form == 'norm-min':
        d['prior'], lo, hi = {'dist': 'truncated', 'min': a, 'max': b}, a, b
    elif form == 'beta':
        d['prior'], lo, hi = {'dist': 'beta', 'a': 2, 'b': 3}, 0.0, 1.0
    elif form == 'number':
        return a, ('fixed', p, a, a, [])
    elif form == 'value':
        d['value'], kind, lo, hi = a, 'fixed', a, a
    elif form == 'derived-none':
        return None, ('derived', p, None, None, [])
    elif form == 'derived':
        kind = 'derived'
    elif form == 'derived-range':
        kind, lo, hi = 'derived', a, b
        d.update({'min': a, 'max': b, 'derived': 'lambda x: x'})
    elif form == 'string':
        return 'lambda q: q', ('derived', p, None, None, [])
    elif form == 'string-dict':
        d['value'], kind = 'lambda q: q', 'derived'
    elif form == 'string-hidden':
        d.update({'value': 'lambda q: q', 'derived': False})
        kind = 'hidden'
    elif form == 'function':
        d['value'], kind = len, 'derived'
    elif form == 'function-hidden':
        d.update({'value': len, 'derived': False})
        kind = 'hidden'
    if kind == 'sampled' and c.flag('ref ' + p):
        d.update({'ref': a, 'proposal': 0.1})
    return d, (kind, label, lo, hi, ren)


def near(a, b):
    return (a is None) == (b is None) and (a is None or abs(a - b) < 1e-12)


@contract('C21', 'info', [C + x for x in ('get_info_params', 'get_range', 'get_sampler_type', 'get_sample_label', 'get_burn_removed', 'is_sampled_param', 'is_derived_param',
                                          'is_fixed_param', 'is_parameter_with_range', 'expand_info_param')], symbolic=False, runs=600)
def _(c):
    """parameters, kinds, ranges, sampler, label and burn-in are those declared, every time they are asked for; the description is unchanged"""
    m = c.module('getdist.cobaya_interface')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    info, want, meta = draw(c, r)
    keep = copy.deepcopy(info)
    for k in range(2):
        ps = m.get_info_params(info)
        c.check('parameters', list(ps) == list(want) or set(ps) == set(want) and [p for p in ps if p in keep['params']] == [p for p in want if p in keep['params']], (list(ps), list(want)))
        for p, (kind, label, lo, hi, ren) in want.items():
            c.check('sampled', bool(m.is_sampled_param(ps[p])) == (kind == 'sampled'), p)
            c.check('derived', bool(m.is_derived_param(ps[p])) == (kind == 'derived'), p)
            c.check('has range', bool(m.is_parameter_with_range(ps[p])) == (kind != 'hidden'), p)
            rg = m.get_range(ps[p])
            c.check('range', near(rg[0], lo) and near(rg[1], hi), (p, kind, rg, lo, hi))
        c.check('sampler', m.get_sampler_type(info) == meta['sampler'])
        c.check('label', m.get_sample_label(info) == meta['label'])
        c.check('burn', m.get_burn_removed(info) == meta['skip'])
        c.check('unchanged', info == keep, info)


class Coll:
    """as Cobaya's sample collection: indexed by column names"""

    def __init__(self, df):
        self.data = df

    def __getitem__(self, k):
        return self.data[k]


@contract('C21', 'samples', [C + 'MCSamplesFromCobaya'], symbolic=False, runs=150)
def _(c):
    """samples made from a collection have its values under the declared names, labels, ranges and derived flags; wrong columns are refused"""
    import pandas as pd
    m = c.module('getdist.cobaya_interface')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    info, want, meta = draw(c, r)
    cols = [p for p in want if want[p][0] in ('sampled', 'derived')]
    if c.flag('shuffle'):
        cols = list(c._in('cols', lambda: tuple(c.rng.sample(cols, len(cols)))))
    if not any(want[p][0] == 'sampled' for p in cols) or meta['sampler'] == 'minimize':
        raise Skip
    keep = copy.deepcopy(info)
    K = c.int('chains', 1, 3)
    dfs = []
    for k in range(K):
        n = r.randint(20, 40)
        d = pd.DataFrame(r.normal(0, 1, (n, len(cols))), columns=cols)
        d.insert(0, 'minuslogpost', r.uniform(0, 9, n))
        d.insert(0, 'weight', r.randint(1, 5, n).astype(float))
        dfs.append(d)
    col = [Coll(d.copy()) for d in dfs]
    if c.flag('wrong'):
        col[-1].data.columns = list(col[-1].data.columns[:-1]) + ['other']
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                m.MCSamplesFromCobaya(info, col)
        except (ValueError, AssertionError):
            return
        c.check('refused', False)
    ignore = 0 if meta['sampler'] == 'nested' else c.option('ignore_rows', [0, 0, 0.25, 7])
    used = [d.iloc[int(round(len(d) * ignore)) if ignore < 1 else ignore:] for d in dfs]
    for k in range(2):
        with contextlib.redirect_stdout(io.StringIO()):
            s = m.MCSamplesFromCobaya(info, col if K > 1 or c.flag('list') else col[0], name_tag='tag', ignore_rows=ignore, settings={'contours': '0.4 0.7'} if k else None)
        c.check('given', s.name_tag == 'tag' and s.label == meta['label'] and (not k or [float(x) for x in s.contours] == [0.4, 0.7]), (s.label, s.contours))
        c.check('unchanged', info == keep)
        c.check('names', s.paramNames.list() == cols, s.paramNames.list())
        for j, p in enumerate(cols):
            kind, label, lo, hi, ren = want[p]
            q = s.paramNames.parWithName(p)
            c.check('derived', bool(q.isDerived) == (kind == 'derived'), p)
            c.check('label', q.label == label, (q.label, label))
            c.check('range', near(s.ranges.getLower(p), lo) and near(s.ranges.getUpper(p), hi), p)
            c.check('renames', sorted(q.renames or []) == sorted(ren), (q.renames, ren))
        for p in want:
            if want[p][0] == 'fixed':
                c.check('fixed', near(s.ranges.fixedValue(p), want[p][2]), p)
        c.check('sampler', s.sampler == meta['sampler'])
        allv = pd.concat(used)
        chains = s.chains if s.chains else None
        X = np.vstack([x.samples for x in chains]) if chains else s.samples
        W = np.hstack([x.weights for x in chains]) if chains else s.weights
        L = np.hstack([x.loglikes for x in chains]) if chains else s.loglikes
        c.check('values', X.shape == (len(allv), len(cols)) and np.array_equal(X, allv[cols].values))
        c.check('weights', np.array_equal(W, allv['weight'].values) and np.array_equal(L, allv['minuslogpost'].values))
        c.check('collection', all(a.data.equals(d) for a, d in zip(col, dfs)))


@contract('C21', 'files', [C + 'cobaya_params_file', C + 'yaml_file_or_dict', 'getdist.yaml_tools:yaml_load_file', 'getdist.paramnames:ParamNames.loadFromFile',
                           'getdist.parampriors:ParamBounds.loadFromFile'], symbolic=False, runs=120)
def _(c):
    """a description in a .yaml file beside the chains gives the names (sampled first), labels, ranges, sampler and burn-in it declares"""
    import yaml
    m = c.module('getdist.cobaya_interface')
    pn = c.module('getdist.paramnames')
    pp = c.module('getdist.parampriors')
    ms = c.module('getdist.mcsamples')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    info, want, meta = draw(c, r, functions=False)
    if not any(v[0] == 'sampled' for v in want.values()):
        raise Skip
    cols = [p for p in want if want[p][0] == 'sampled'] + [p for p in want if want[p][0] == 'derived']
    # in the order of the description: parameters (updated or added by post), then prior and chi2
    with tempfile.TemporaryDirectory() as d:
        style = c.option('style', ['.updated.yaml', '__full.yaml', '/updated.yaml', '/full.yaml'])
        root = os.path.join(d, 'run')
        if style[0] == '/':
            os.mkdir(root)
            root += '/'
            fn = root + style[1:]
        else:
            fn = root + style
        c.check('none yet', m.cobaya_params_file(root) is None)
        with open(fn, 'w', encoding='utf-8') as f:
            yaml.dump(info, f, allow_unicode=True, sort_keys=False)
        c.check('found', os.path.samefile(m.cobaya_params_file(root), fn))
        names = pn.ParamNames(fn)
        c.check('names', names.list() == cols or set(names.list()) == set(cols), (names.list(), cols))
        k = len([p for p in cols if want[p][0] == 'sampled'])
        c.check('sampled first', names.list()[:k] == cols[:k])
        for q in names.names:
            kind, label, lo, hi, ren = want[q.name]
            c.check('param', q.label == label and bool(q.isDerived) == (kind == 'derived') and sorted(q.renames or []) == sorted(ren), q.name)
        b = pp.ParamBounds(fn)
        for p, (kind, label, lo, hi, ren) in want.items():
            c.check('bounds', near(b.getLower(p), lo) and near(b.getUpper(p), hi), p)
        c.check('sampler', m.get_sampler_type(fn) == meta['sampler'] and m.get_sample_label(fn) == meta['label'] and m.get_burn_removed(fn) == meta['skip'])
        if style[0] != '/' and meta['sampler'] != 'minimize':
            n = 40
            ncol = len(names.names)
            X = r.normal(0, 1, (n, ncol))
            np.savetxt(root + '.1.txt', np.column_stack([np.ones(n), r.uniform(0, 5, n), X]))
            with contextlib.redirect_stdout(io.StringIO()):
                s = ms.loadMCSamples(root, settings={'ignore_rows': 0.25}, no_cache=True)
            keep = n if meta['skip'] else 30
            c.check('rows', s.numrows == keep, (s.numrows, keep))
            c.check('values', np.allclose(s.samples[:, 0], X[n - keep:, 0]))
            c.check('loaded', s.paramNames.list() == names.list() and s.sampler == meta['sampler'] and (s.label or None) == meta['label'])
