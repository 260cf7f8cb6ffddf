"""C17: grid items have unique, order-independent names and paths"""
import contextlib
import fnmatch
import functools
import io
import os
import tempfile
import types as pytypes
from pyvc.api import contract, Skip

B = 'paramgrid.batchjob:'
A = 'paramgrid.batchjob_args:batchArgs.'
DATA = ['plik', 'lowl', 'lowE', 'BAO', 'lensing', 'JLA', 'HST', 'TT', 'a', 'b1']
PARS = ['mnu', 'omegak', 'w', 'nnu', 'r', 'nrun', 'yhe']


def sample(c, name, pool, lo, hi):
    return list(c._in(name, lambda: tuple(c.rng.sample(pool, c.rng.randint(lo, hi)))))


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Imp:
    """what an importance run asks for"""

    def __init__(self, names, want, is_filter, kw):
        self.names, self.want, self.filter, self.kw = names, want, is_filter, kw


def draw(c):
    """a grid: groups of distinct (parameter list, data list) combinations, importance runs, filters and exclusions"""
    seen, groups = set(), []
    for g in range(c.int('groups', 1, 3)):
        params, data = [], []
        for i in range(c.int('np%d' % g, 1, 3)):
            p = sample(c, 'params%d_%d' % (g, i), PARS, 0, 3)
            params.append(p)
        for i in range(c.int('nd%d' % g, 1, 3)):
            data.append(sample(c, 'data%d_%d' % (g, i), DATA, 1, 3))
        combos = [(frozenset(p), frozenset(d)) for p in params for d in data]
        if len(set(combos)) < len(combos) or seen & set(combos):
            raise Skip
        seen |= set(combos)
        groups.append(('group%d' % g, params, data, imps(c, 'gi%d' % g)))
    return groups, imps(c, 'all'), imps(c, 'filter', True)


def imps(c, tag, is_filter=False):
    out = []
    for i in range(c.int('n' + tag, 0, 2)):
        names = sample(c, '%s%d' % (tag, i), DATA + ['zre6', 'pos1'] if not is_filter else ['cutZ', 'cutH', 'cutM'], 1, 2)
        out.append(Imp(names, c.option('want%s%d' % (tag, i), ['all', 'all', 'some']), is_filter, c.option('kind%s%d' % (tag, i), ['class', 'list'])))
    return out


def ask(x, job):
    return x.want == 'all' or 'mnu' in job.param_set or 'plik' in job.data_set.names


class Asker:
    def __init__(self, x):
        self.wantImportance = functools.partial(ask, x)


def make_imp(bj, x):
    if x.filter:
        r = bj.importanceFilter(list(x.names), dist_settings={'f': 1})
    elif x.kw == 'list':
        return [list(x.names), [n + '.ini' for n in x.names], Asker(x)]
    else:
        r = bj.importanceSetting(list(x.names), [n for n in x.names], dist_settings={'s': 2})
    r.wantImportance = functools.partial(ask, x)
    return r


def wanted(x, params, names):
    return (x.want == 'all' or 'mnu' in params or 'plik' in names) and not set(x.names) & set(names)


def build(c, bj, path, grid, skip=(), base_items=False):
    groups, everywhere, filters = grid
    st = pytypes.SimpleNamespace()
    st.groups = []
    for name, params, data, gi in groups:
        ds = [bj.dataSet(list(d)) if c.flag('ds') else [list(d), None] for d in data]
        if c.flag('ctor'):
            g = bj.jobGroup(name, params=[list(p) for p in params], importanceRuns=[make_imp(bj, x) for x in gi], datasets=ds)
        else:
            g = bj.jobGroup(name)
            g.params = [list(p) for p in params]
            g.datasets = ds
            g.importanceRuns = [make_imp(bj, x) for x in gi]
        st.groups.append(g)
    if everywhere:
        st.importanceRuns = [make_imp(bj, x) for x in everywhere]
    if filters:
        st.importance_filters = [make_imp(bj, x) for x in filters]
    b = bj.batchJob(path, 'batch3/')
    b.skip = list(skip)
    with quiet():
        b.makeItems(st)
    return b


def normed(params, names, base='base'):
    return '_'.join([base] + sorted(params)) + '_' + '_'.join(sorted(names))


def full(grid, skip):
    """every combination, as (group, parameters, data)"""
    out = []
    for name, params, data, gi in grid[0]:
        for d in data:
            for p in params:
                if '_'.join(['base'] + p + d) not in skip:
                    out.append((name, p, d, gi))
    return out


def candidates(grid, skip):
    """the parameter and data combinations reachable by importance sampling and filtering"""
    groups, everywhere, filters = grid
    names = set()
    for g, p, d, gi in full(grid, skip):
        level1 = [(p, d + x.names) for x in gi + everywhere if wanted(x, p, d)]
        level1 += [(q, e + x.names) for q, e in list(level1) for x in filters if wanted(x, q, e)]
        level1 += [(p, d + x.names) for x in filters if wanted(x, p, d)]
        names |= {normed(q, e) for q, e in level1}
    return names


@contract('C17', 'items', [B + 'batchJob.makeItems', B + 'batchJob.items', B + 'jobItem.__init__', B + 'jobItem.makeImportance', B + 'jobItem.makeNormedName', B + 'jobItem.removeImportance',
                           B + 'jobItem.importanceJobsRecursive', B + 'dataSet.extendForImportance', B + 'jobGroup.__init__', B + 'batchJob.normed_name_item'], symbolic=False, runs=600)
def _(c):
    """one item for each combination not excluded; importance runs for every wanted extension, none twice and none that a full run covers"""
    bj = c.module('paramgrid.batchjob')
    grid = draw(c)
    some = ['_'.join(['base'] + p + d) for _, p, d, _ in full(grid, ())]
    skip = some[:1] if c.flag('skip') else []
    path = '/tmp/none/grid/'
    b = build(c, bj, path, grid, skip)
    want = full(grid, skip)
    got = list(b.items())
    c.check('items', [i.name for i in got] == ['_'.join(['base'] + p + d) for _, p, d, _ in want], lambda: '%s' % [i.name for i in got])
    for i, (g, p, d, _) in zip(got, want):
        ptag, dtag = '_'.join(['base'] + p), '_'.join(d)
        c.check('tags', (i.paramtag, i.datatag, i.group) == (ptag, dtag, g))
        c.check('paths', i.chainPath == path + ptag + os.sep + dtag + os.sep and i.chainRoot == i.chainPath + i.name and i.distRoot == i.chainPath + 'dist' + os.sep + i.name)
        c.check('normed', (i.normed_name, i.normed_params, i.normed_data) == (normed(p, d), '_'.join(sorted(p)), '_'.join(sorted(d))))
        c.check('ini', i.iniFile() == path + 'iniFiles' + os.sep + i.name + '.ini' and i.iniFile('_minimize') == path + 'iniFiles' + os.sep + i.name + '_minimize.ini')
        c.check('data', i.data_set.names == d and i.param_set == p and not i.isImportanceJob)
    every = list(b.items(wantImportance=True))
    names = [i.normed_name for i in every]
    c.check('unique', len(set(names)) == len(names), lambda: '%s' % sorted(names))
    c.check('unique_roots', len({i.chainRoot for i in every}) == len(every) and len({i.name for i in every}) == len(every) and len({i.iniFile() for i in every}) == len(every))
    fulls = {normed(p, d) for _, p, d, _ in want}
    c.check('complete', set(names) == fulls | candidates(grid, skip), lambda: 'missing %s extra %s' % ((fulls | candidates(grid, skip)) - set(names), set(names) - fulls - candidates(grid, skip)))

    def below(i, parent_of=None):
        for j in i.importanceJobs():
            new = j.data_set.importanceNames
            tag = ('_' if '_post_' in i.name else '_post_') + '_'.join(new)
            c.check('imp_name', j.isImportanceJob and j.parent is i and j.name == i.name + tag and j.datatag == i.datatag + tag and j.importanceTag == '_'.join(new))
            c.check('imp_root', j.chainRoot == i.chainRoot + tag and j.chainPath == i.chainPath and j.distRoot == i.distRoot + tag and j.distPath == i.distPath)
            c.check('imp_data', j.data_set.names == i.data_set.names + new and j.param_set == i.param_set and j.paramtag == i.paramtag and j.group == i.group)
            c.check('imp_normed', j.normed_name == normed(j.param_set, j.data_set.names))
            c.check('imp_ini', j.iniFile() == path + 'postIniFiles' + os.sep + j.name + '.ini')
            c.check('imp_separate', i.data_set.names == i.data_set.names[:len(i.data_set.names)] and not set(new) & set(i.data_set.names))
            c.check('imp_settings', j.dist_settings.get('f') == (1 if hasattr(j, 'importanceFilter') else j.dist_settings.get('f')))
            below(j)
    for i in got:
        below(i)
    # every item is found by its name, and by its tags in any order
    for i in every:
        c.check('root', b.resolveRoot(i.name) is i and b.resolveRoot(i.normed_name) is not None)
        c.check('by_normed', b.normed_name_item(i.normed_name, wantImportance=True) is i)
        c.check('has', b.hasName(i.name) == (not i.isImportanceJob) and b.has_normed_name(i.normed_name, wantImportance=True) and not b.has_normed_name(i.normed_name, wantImportance=True, exclude=i))
        ps, ds = list(i.param_set), list(i.data_set.names)
        c.rng.shuffle(ps)
        c.rng.shuffle(ds)
        tag = '_'.join(ds)
        if c.flag('post') and len(ds) > 1:
            tag = ds[0] + '_post_' + '_'.join(ds[1:])
        c.check('resolve', b.resolveName('_'.join(ps), tag, returnJobItem=True) is i and b.resolveName(ps, tag) == i.name)
        c.check('matches', i.matchesDatatag([i.datatag]) and i.matchesDatatag([i.normed_data, 'x']) and i.matchesDatatag([i.datatag.replace('_post', '')]) and not i.matchesDatatag(['x', 'zz_y']))
    c.check('absent', b.resolveRoot('base_nope') is None and not b.hasName('base_nope') and b.resolveName('', 'nope', raiseError=False) is None and c.raises(Exception, lambda: b.resolveName('', 'nope')))
    # the same grid with the tags in another order has the same normalised names
    groups, ev, fl = grid
    perm = ([(n, [sorted(p, reverse=c.flag('r')) for p in ps], [sorted(d) for d in ds], gi) for n, ps, ds, gi in groups], ev, fl)
    if not skip:
        e = build(c, bj, path, perm)
        c.check('order_free', {i.normed_name for i in e.items(wantImportance=True)} == set(names))


@contract('C17', 'sub_batches', [B + 'batchJob.items', B + 'batchJob.resolveRoot', A + 'filteredBatchItems'], symbolic=False, runs=60)
def _(c):
    """items of sub-grids are included exactly when asked for; skipped importance runs never"""
    bj = c.module('paramgrid.batchjob')
    b = bj.batchJob('/tmp/none/g/', 'x/')
    e = bj.batchJob('/tmp/none/h/', 'x/')
    i, j = bj.jobItem(b.batchPath, ['mnu'], [['a', 'b'], None]), bj.jobItem(e.batchPath, [], [['a'], None], base=c.option('base', ['base', 'cdm']))
    imp = c.option('imp', [['lensing'], ['BAO', 'lensing']])
    for x in (i, j):
        x.makeImportance([bj.importanceSetting(list(imp))])
    b.jobItems, e.jobItems = [i], [j]
    b.subBatches = [e]
    if c.flag('skip'):
        b.skip = [i.importanceItems[0].name]
    ii = [] if b.skip else i.importanceItems
    c.check('own', list(b.items(wantSubItems=False)) == [i] and list(b.items(False, True)) == [i] + ii)
    c.check('all', list(b.items()) == [i, j] and list(b.items(True, True)) == [i] + ii + [j] + j.importanceItems)
    getdist, ba = c.module('getdist'), c.module('paramgrid.batchjob_args')
    with tempfile.TemporaryDirectory() as d:
        old = getdist.cache_dir
        getdist.cache_dir = None
        try:
            b.batchPath = d + os.sep
            b.save()
            args = ba.batchArgs('test')
            args.parseForBatch([d])
            c.check('filtered', [x.name for x in args.filteredBatchItems()] == [x.name for x in [i] + ii + [j] + j.importanceItems]
                    and [x.name for x in args.filteredBatchItems(wantSubItems=False)] == [x.name for x in [i] + ii])
        finally:
            getdist.cache_dir = old
    c.check('base', j.importanceItems[0].paramtag == j.paramtag and j.importanceItems[0].normed_name == normed([], ['a'] + imp, j.base) and j.importanceItems[0].base == j.base)
    c.check('resolve', b.resolveRoot(j.name) is j and b.resolveName(None, '_'.join(imp + ['a']), base=j.base, returnJobItem=True) is j.importanceItems[0])


@contract('C17', 'data_set', [B + 'dataSet.' + x for x in ('__init__', 'add', 'addEnd', 'copy', 'extendForImportance', 'standardizeParams', 'hasName', 'hasAll', 'tagReplacing', 'namesReplacing', 'makeNormedDatatag')],
          symbolic=False, runs=500)
def _(c):
    """after any additions the tag is the names in order and the settings are in override order; what it was made from and its copies are unaffected"""
    bj = c.module('paramgrid.batchjob')
    names = sample(c, 'names', DATA, 1, 3)
    given = list(names)
    single = len(names) == 1 and c.flag('string')
    params = c.option('params', [None, ['x', 'y.ini'], [{'p': 1}, 'z'], 'one', {'q': 2}])
    pgiven = list(params) if isinstance(params, list) else params
    dist = {'k': 1} if c.flag('dist') else None
    ds = bj.dataSet(names[0] if single else names, pgiven, dist_settings=dist)
    ini = lambda s: s if not isinstance(s, str) or '.ini' in s else s + '.ini'
    want = [n + '.ini' for n in names] if params is None else [ini(x) for x in (params if isinstance(params, list) else [params])]
    other = bj.dataSet(names, pgiven, dist_settings=dist)
    ref = list(names)
    c.check('made', ds.names == ref and ds.tag == '_'.join(ref) and ds.params == want)
    copies = []
    for k in range(c.int('steps', 0, 4)):
        op = c.option('op%d' % k, ['add', 'add_only', 'end', 'copy', 'params'])
        n = c.option('n%d' % k, ['new1', 'new2', 'new3'])
        extra = c.option('extra%d' % k, [['u'], [{'v': k}, 'w.ini']])
        mine = list(extra)
        if op == 'add':
            r = ds.add(n, mine, dist_settings={'d': k})
            ref, want = ref + [n], [ini(x) for x in extra] + want
            c.check('dist', ds.dist_settings['d'] == k)
        elif op == 'add_only':
            r = ds.add(n)
            ref, want = ref + [n], [n + '.ini'] + want
        elif op == 'end':
            more = c.flag('dist%d' % k)
            r = ds.addEnd(n, mine, dist_settings={'e': k}) if more else ds.addEnd(n, mine)
            c.check('end_dist', not more or ds.dist_settings['e'] == k)
            ref, want = ref + [n], want + [ini(x) for x in extra]
        elif op == 'params':
            r = ds.add(None, mine)
            want = [ini(x) for x in extra] + want
        else:
            copies.append((ds.copy(), list(ref), list(want)))
            r = ds
        c.check('chain', r is ds and mine == extra)
        c.check('state', ds.names == ref and ds.tag == '_'.join(ref) and ds.params == want, lambda: '%s %s' % (ds.names, ds.params))
    for d, r, w in copies:
        c.check('copies', d.names == r and d.tag == '_'.join(r) and d.params == w)
    c.check('inputs', names == given and pgiven == params and dist in (None, {'k': 1}))
    c.check('other', other.names == given and other.tag == '_'.join(given) and not {'d', 'e'} & set(other.dist_settings))
    e = ds.extendForImportance(['L', 'M'], ['l', 'm.ini'])
    c.check('extended', e.names == ref + ['L', 'M'] and e.tag == '_'.join(ref) + '_post_L_M' and e.params == want + ['l.ini', 'm.ini'] and e.importanceNames == ['L', 'M'])
    e2 = e.extendForImportance(['Q'], ['q'])
    c.check('extended_again', e2.tag == e.tag + '_Q' and e2.names == e.names + ['Q'])
    c.check('kept', ds.names == ref and ds.params == want and e.names == ref + ['L', 'M'])
    for q in ([ref[0]], [ref[-1], 'zzz'], ['zzz'], ref, [ref[0][:-1]], [ref[-1][1:], ref[0]], [ref[0], ref[-1][:1]], ['_'.join(ref)], [ref[-1], ref[0]]):
        c.check('has_any', ds.hasName(q) == any(x in ref for x in q) and ds.hasAll(q) == all(x in ref for x in q))
        c.check('has', ds.hasName(q[0]) == (q[0] in ref) == ds.hasAll(q[0]))
    c.check('replace', ds.tagReplacing(ref[0], 'R') == '_'.join('R' if x == ref[0] else x for x in ref) and ds.tagReplacing(ref[0], '') == '_'.join(x for x in ref if x != ref[0]))
    dic = {ref[0]: c.option('to', ['R', '', None])}
    w = [dic.get(x, x) for x in ref if dic.get(x, x)]
    c.check('names_replace', ds.namesReplacing(dic) == w and ds.makeNormedDatatag(dic) == '_'.join(sorted(w)) and ds.namesReplacing(None) == ref)
    perm = list(ref)
    c.rng.shuffle(perm)
    c.check('order_free', bj.dataSet(perm).makeNormedDatatag(None) == ds.makeNormedDatatag(None) == bj.batchJob('/x/', 'y').normalizeDataTag('_'.join(perm)))


@contract('C17', 'chain_files', [B + 'jobItem.' + x for x in ('chainName', 'chainNames', 'chainExists', 'allChainExists', 'convergeStat', 'chainFinished', 'getDistNeedsUpdate', 'wantCheckpointContinue', 'chainsDodgy')],
          symbolic=False, runs=150)
def _(c):
    bj = c.module('paramgrid.batchjob')
    with tempfile.TemporaryDirectory() as d:
        i = bj.jobItem(d + os.sep, ['mnu'], [['a', 'b'], None])
        i.makeChainPath()
        n = c.int('n', 0, 4)
        full_ = [c.flag('full%d' % k) for k in range(n)]
        for k in range(n):
            fn = i.chainRoot + '_%d.txt' % (k + 1)
            with open(fn, 'w') as f:
                f.write('1 2 3\n' if full_[k] else '')
            os.utime(fn, (1000 + 10 * k, 1000 + 10 * k))
        run = 0
        while run < n and full_[run]:
            run += 1
        c.check('names', i.chainNames() == [i.chainRoot + '_%d.txt' % (k + 1) for k in range(run)])
        c.check('numbered', i.chainNames(3) == [i.chainRoot + '_%d.txt' % k for k in (1, 2, 3)])
        for k in range(1, 6):
            c.check('exists', i.chainExists(k) == (k <= n and full_[k - 1]))
            c.check('all', i.allChainExists(k) == (k <= run))
        R = c.option('R', [None, 0.005, 0.2])
        done = c.option('done', ['', 'Done', 'no'])
        if R is not None:
            with open(i.chainRoot + '.converge_stat', 'w') as f:
                f.write(' %s\n%s' % (R, done + '\n' if done else ''))
        c.check('converge', i.convergeStat() == ((None, None) if R is None else (R, done == 'Done')))
        c.check('finished', bool(i.chainFinished()) == (R is not None and done == 'Done'))
        if c.flag('chk'):
            open(i.chainRoot + '_1.chk', 'w').write('x')
            c.check('continue', bool(i.wantCheckpointContinue(0.01)) == (R == 0.2 and done != 'Done'))
            c.check('continue_any', bool(i.wantCheckpointContinue()) == (R is not None and done != 'Done'))
        else:
            c.check('continue', not i.wantCheckpointContinue())
        if run:
            c.check('needs', i.getDistNeedsUpdate())
            os.makedirs(i.distPath)
            mg = i.distRoot + '.margestats'
            open(mg, 'w').write('x')
            t = c.option('t', [500, 2000])
            os.utime(mg, (t, t))
            c.check('needs_newer', i.getDistNeedsUpdate() == (t == 500))
            if n:
                late = c.option('late', [0, 601, 10000])
                os.utime(i.chainName(n), (1000 + late, 1000 + late))
                times = [os.path.getmtime(i.chainName(k + 1)) for k in range(n)]
                c.check('dodgy', bool(i.chainsDodgy()) == (max(times) - min(times) > 600))


OPTS = ['name', 'param', 'paramtag', 'data', 'datatag', 'musthave_data', 'skip_data', 'skip_param', 'group', 'skip_group', 'importance', 'importancetag', 'noimportance']


@contract('C17', 'filters', [A + x for x in ('parseForBatch', 'filteredBatchItems', 'wantImportance', 'jobItemWanted', 'nameMatches', 'groupMatches', 'dataMatches', 'paramsMatch', 'sortedParamtagDict', 'filterForDataCompare')]
          + [B + 'readobject', B + 'batchJob.save', B + 'grid_cache_file'], symbolic=False, runs=500)
def _(c):
    """the command-line filters keep exactly the items that satisfy all of them, in grid order; a saved grid is read back as it was"""
    bj, ba = c.module('paramgrid.batchjob'), c.module('paramgrid.batchjob_args')
    getdist = c.module('getdist')
    grid = draw(c)
    with tempfile.TemporaryDirectory() as d:
        old = getdist.cache_dir
        getdist.cache_dir = None
        try:
            path = os.path.join(d, 'grid') + os.sep
            os.makedirs(path)
            b = build(c, bj, path, grid)
            b.save()
            every = list(b.items(wantImportance=True))
            pars = sorted({p for i in every for p in i.param_set}) or ['mnu']
            data = sorted({n for i in every for n in i.data_set.names})
            opts = {}
            for o in c._in('options', lambda: tuple(c.rng.sample(OPTS, c.rng.randint(0, 3)))):
                if o == 'noimportance':
                    opts[o] = []
                    continue
                pool = {'name': [i.name for i in every] + ['base_*', '*BAO*', '*plik'], 'param': pars, 'skip_param': pars, 'paramtag': [i.paramtag for i in every], 'data': data, 'skip_data': data,
                        'musthave_data': data, 'datatag': [i.datatag for i in every], 'group': ['group0', 'group1', 'zz'], 'skip_group': ['group0', 'group2'],
                        'importance': [n for i in every if i.isImportanceJob for n in i.data_set.importanceNames] + ['zz'], 'importancetag': [i.importanceTag for i in every if i.isImportanceJob] + ['zz']}[o]
                opts[o] = list(c._in('opt_' + o, lambda: tuple(c.rng.choice(pool) for _ in range(c.rng.randint(0 if o in ('importance', 'importancetag') else 1, 2)))))
            if 'datatag' in opts:
                opts.pop('data', None)
            if 'paramtag' in opts:
                opts.pop('param', None)
            argv = [path] if c.flag('slash') else [path[:-1]]
            for o, v in opts.items():
                argv += ['--' + o] + v
            args = ba.batchArgs('test')
            read, ns = args.parseForBatch(argv)
            c.check('read', [i.name for i in read.items(wantImportance=True)] == [i.name for i in every] and [i.chainRoot for i in read.items(wantImportance=True)] == [i.chainRoot for i in every])

            def keep(i):
                g = opts.get
                if i.isImportanceJob:
                    if 'noimportance' in opts:
                        return False
                    if g('importancetag') and i.importanceTag not in g('importancetag'):
                        return False
                    if g('importance') and not set(g('importance')) & set(i.data_set.importanceNames):
                        return False
                elif g('importance') is not None:
                    return False
                if 'name' in opts and not any(fnmatch.fnmatch(i.name, p) for p in opts['name']):
                    return False
                if 'group' in opts and i.group not in opts['group'] or i.group in opts.get('skip_group', []):
                    return False
                names, ps = set(i.data_set.names), set(i.param_set)
                if not set(opts.get('musthave_data', [])) <= names or set(opts.get('skip_data', [])) & names or set(opts.get('skip_param', [])) & ps:
                    return False
                if 'data' in opts and not set(opts['data']) & names or 'param' in opts and not set(opts['param']) & ps:
                    return False
                return ('datatag' not in opts or i.datatag in opts['datatag']) and ('paramtag' not in opts or i.paramtag in opts['paramtag'])
            want = [i.name for i in every if keep(i)]
            got = [i.name for i in args.filteredBatchItems()]
            c.check('kept', got == want, lambda: '%s: %s want %s' % (argv, got, want))
            # only those with chains
            have = every[0]
            have.makeChainPath()
            open(have.chainRoot + '_1.txt', 'w').write('1 2 3\n')
            c.check('existing', [i.name for i in args.filteredBatchItems(chainExist=True)] == [n for n in want if n == have.name])
            made = args.sortedParamtagDict()
            c.check('by_tag_existing', [(t, [i.name for i in v]) for t, v in made] == ([(have.paramtag, [have.name])] if have.name in want else []))
            if c.rng.random() < 0.2:
                both = ba.batchArgs('test', notExist=True, notall=True, converge=True, batchPathOptional=True)
                _, ns = both.parseForBatch(argv + ['--notexist', '--notall', '4', '--converge', '0.1'])
                c.check('options', (ns.notexist, ns.notall, ns.converge) == (True, 4, 0.1) and [i.name for i in both.filteredBatchItems()] == want)
                both = ba.batchArgs('test', notExist=True, notall=True, converge=True, batchPathOptional=True)
                nob, ns = both.parseForBatch([])
                c.check('option_defaults', (nob, ns.batchPath, ns.notexist, ns.notall, ns.converge) == (None, None, False, None, 0))
            byt = args.sortedParamtagDict(chainExist=False)
            tags = sorted({i.paramtag for i in every if i.name in want})
            c.check('by_tag', [t for t, _ in byt] == tags and all([i.name for i in v] == [i.name for i in every if i.paramtag == t and i.name in want] for t, v in byt))
            x = every[-1]
            perm = list(x.data_set.names)
            c.rng.shuffle(perm)
            cmp_ = args.filterForDataCompare(every, ['_'.join(perm)])
            c.check('compare', [i.name for i in cmp_] == [i.name for i in every if sorted(i.data_set.names) == sorted(perm)])
            # plotting scripts get the same items and a plotter reading this grid
            if c.rng.random() < 0.2:
                with open(path + 'some.paramnames', 'w') as f:
                    f.write('x x\nomegam* O_m\n')
                os.environ.setdefault('MPLBACKEND', 'Agg')
                pl = ba.batchArgs('test', plots=True)
                lst = c.flag('param_list')
                _, ns, g = pl.parseForBatch(argv + (['--param_list', path + 'some.paramnames'] if lst else []))
                c.check('plot_kept', [i.name for i in pl.filteredBatchItems()] == want)
                c.check('plot_params', (ns.paramList is None) if not lst else ns.paramList.list() == ['x', 'omegam'])
            # a fresh grid object is used when the saved one cannot be read
            c.check('cache_name', bj.grid_cache_file(path) == bj.grid_cache_file(path[:-1]) == os.path.join(path, 'batch.pyobj'))
            bj.resetGrid(path)
            c.check('reset', not os.path.exists(os.path.join(path, 'batch.pyobj')) and bj.readobject(path) is None)
        finally:
            getdist.cache_dir = old


@contract('C17', 'make_grid', ['paramgrid.gridconfig:makeGrid', 'paramgrid.gridconfig:updateIniParams', B + 'batchJob.makeDirectories', B + 'jobItem.iniFile'], symbolic=False, runs=80)
def _(c):
    """the run files written for the grid are one for each item, for its own chain root, parameters and data settings"""
    gc, bj = c.module('paramgrid.gridconfig'), c.module('paramgrid.batchjob')
    getdist, IniFile = c.module('getdist'), c.module('getdist.inifile').IniFile
    groups, everywhere, filters = draw(c)
    with tempfile.TemporaryDirectory() as d:
        old = getdist.cache_dir
        getdist.cache_dir = None
        try:
            st = pytypes.SimpleNamespace(ini_dir='batch3/', defaults=['common.ini', 'd2.ini'], importanceDefaults=['imp.ini'], __file__=os.path.join(d, 'my_settings.py'))
            open(st.__file__, 'w').write('#\n')
            st.groups = []
            for name, params, data, gi in groups:
                g = bj.jobGroup(name)
                g.params, g.datasets = [list(p) for p in params], [bj.dataSet(list(x)) for x in data]
                g.importanceRuns = [make_imp(bj, x) for x in gi]
                st.groups.append(g)
            st.importanceRuns = [make_imp(bj, x) for x in everywhere]
            st.importance_filters = [make_imp(bj, x) for x in filters]
            if c.flag('extra'):
                st.extra_opts = {'checkpoint': False, 'num': 3}
            if c.flag('override'):
                st.override_defaults = ['o.ini']
            grid = (groups, everywhere, filters)
            every = {normed(q.param_set, q.data_set.names) for q in build(c, bj, d + '/', grid).items(wantImportance=True)}
            try:
                with quiet():
                    b = gc.makeGrid(os.path.join(d, 'out'), settings=st)
            except Exception as e:
                if 'already have' in str(e):
                    raise Skip
                raise
            out = os.path.join(d, 'out') + os.sep
            items = list(b.items())
            inis = {f for f in os.listdir(out + 'iniFiles')}
            c.check('files', inis == {i.name + v + '.ini' for i in items for v in ('', '_minimize')})
            common = b.commonPath
            for i in items:
                for v, act in (('', '0'), ('_minimize', '2')):
                    f = IniFile(i.iniFile(v), keep_includes=True)
                    c.check('root', f.params['file_root'] == i.chainRoot and f.params['action'] == act and os.path.isdir(os.path.dirname(i.chainRoot)))
                    c.check('params', {k for k in f.params if k.startswith('param[')} >= {'param[%s]' % p for p in i.param_set} and all(f.params['param[%s]' % p] == gc.default_params[p] for p in i.param_set))
                    c.check('only_params', not any('param[%s]' % p in f.params for p in PARS if p not in i.param_set))
                    c.check('defaults', f.defaults == ([common + 'o.ini'] if hasattr(st, 'override_defaults') else []) + [common + n + '.ini' for n in i.data_set.names] + [common + x for x in st.defaults], lambda: '%s' % f.defaults)
                    if hasattr(st, 'extra_opts'):
                        c.check('extra', f.params['checkpoint'] == 'F' and f.params['num'] == '3')
            post = set()
            for i in items:
                for j in i.importanceJobs():
                    if hasattr(j, 'importanceFilter'):
                        continue
                    post |= {j.name + '.ini', j.name + '_minimize.ini'}
                    f = IniFile(j.iniFile(), keep_includes=True)
                    c.check('imp', f.params['redo_outroot'] == j.chainRoot and f.params['action'] == '1' and f.defaults == [common + n + '.ini' for n in j.data_set.importanceNames] + [common + 'imp.ini', i.iniFile()], lambda: '%s' % f.defaults)
                    f = IniFile(j.iniFile('_minimize'), keep_includes=True)
                    c.check('imp_min', f.params['file_root'] == j.chainRoot and f.params['action'] == '2')
            c.check('post_files', set(os.listdir(out + 'postIniFiles')) == post)
            c.check('same_items', {i.normed_name for i in b.items(wantImportance=True)} == every)
            # as a configured grid: only items with chains
            x = items[0]
            open(x.chainRoot + '_1.txt', 'w').write('1 2 3\n')
            with quiet():
                r = gc.makeGrid(os.path.join(d, 'out'), settings=st, readOnly=True)
            c.check('read_only', [i.name for i in r.jobItems] == [x.name])
            c.check('is_grid', gc.pathIsGrid(os.path.join(d, 'out')) and not gc.pathIsGrid(d))
        finally:
            getdist.cache_dir = old


@contract('C17', 'run_settings', ['paramgrid.gridconfig:makeGrid', 'paramgrid.gridconfig:setMinimize', 'paramgrid.gridconfig:updateIniParams', 'paramgrid.gridconfig:getArgs'], symbolic=False, runs=120)
def _(c):
    """the run file of an item has its own options and the first matching proposal covariance there is"""
    gc, bj = c.module('paramgrid.gridconfig'), c.module('paramgrid.batchjob')
    getdist, IniFile = c.module('getdist'), c.module('getdist.inifile').IniFile
    params = sample(c, 'params', ['mnu', 'omegak', 'w', 'meffsterile', 'yhe', 'r'], 0, 3)
    if 'meffsterile' in params and 'mnu' in params:
        raise Skip
    data = sample(c, 'data', ['plik', 'lowl', 'BAO', 'HST', 'TT'], 1, 3)
    with tempfile.TemporaryDirectory() as d:
        old = getdist.cache_dir
        getdist.cache_dir = None
        try:
            cov, fall = os.path.join(d, 'cov'), os.path.join(d, 'fall')
            os.makedirs(cov), os.makedirs(fall)
            st = pytypes.SimpleNamespace(ini_dir='batch3/', defaults=[], importanceDefaults=[], __file__=os.path.join(d, 'my_settings.py'), cov_dir=cov)
            open(st.__file__, 'w').write('#\n')
            g = bj.jobGroup('main')
            ds = bj.dataSet(list(data), params=[{'d_opt': 'a'}, 'common%d.ini' % len(data)])
            g.params, g.datasets = [list(params)], [ds]
            st.groups = [g]
            name = '_'.join(['base'] + params + data)
            subs = c.option('mappings', [None, {'HST': 'H073', 'lowl': 'LL'}, {'TT': ''}])
            if subs is not None:
                st.covNameMappings = dict(subs)

            def tagged(rep):
                return '_'.join(['base'] + sorted(params) + ['_'.join(sorted(q for q in (rep.get(x, x) for x in data) if q))])
            cands = [(cov, name), (cov, tagged(subs or {}))]
            if subs is not None:
                cands.append((cov, '_'.join([subs.get(x, x) for x in name.split('_')])))
            if c.flag('data covmat'):
                ds.covmat = 'data.covmat'
                cands.append((cov, 'data'))
            real = None
            if c.flag('settings covmat'):
                st.covmat = 'all.covmat'
                cands.append((cov, 'all'))
            specific = len(cands)
            if c.flag('fallback'):
                st.cov_dir_fallback = fall
            dir2 = fall if hasattr(st, 'cov_dir_fallback') else cov
            if c.flag('renamer'):
                st.covRenamer = lambda n: [n.replace('BAO', 'XX'), n + '_q']
                for n in (name, tagged(subs or {})):
                    cands += [(dir2, n.replace('BAO', 'XX')), (dir2, n + '_q')]
            if c.flag('renames'):
                st.covrenames = [('plik', 'TT'), ('HST', 'BAO')]
                for n in (name, tagged(subs or {})):
                    cands += [(dir2, n.replace(a, b, 1)) for a, b in st.covrenames if a in n]
                    for b1, a1 in st.covrenames:
                        if a1 in n:
                            m = n.replace(a1, b1, 1)
                            cands += [(dir2, m.replace(a, b, 1)) for a, b in st.covrenames if a in m]
            if c.flag('without'):
                st.covWithoutNameOrder = ['HST', 'BAO']
                rem = dict(subs or {})
                for x in st.covWithoutNameOrder:
                    if x in data:
                        rem[x] = ''
                        cands += [(dir2, tagged({x: ''})), (dir2, tagged(rem))]
            there = c._in('there', lambda: tuple(c.rng.random() < 0.25 for _ in range(30)))
            for (di, n), on in zip(cands, there):
                if on and n:
                    open(os.path.join(di, n + '.covmat'), 'w').write('# a\n1\n')
            if c.flag('new'):
                st.newCovmats = False
            best = c.flag('at best')
            if best:
                st.start_at_bestfit = True
            if c.flag('params given'):
                st.params = {p: '1 0 2 %d 1' % i for i, p in enumerate(sorted(PARS + ['meffsterile']))}
            pe = c.option('extras', ['default', 'none', 'own'])
            if pe == 'none':
                st.param_extra_opts = None
            elif pe == 'own':
                st.param_extra_opts = {'w': {'de': 'ppf'}, 'zz': {'never': 1}}
            with quiet():
                b = gc.makeGrid(os.path.join(d, 'out'), settings=st)
            i, = b.items()
            found = [os.path.join(di, n + '.covmat') for di, n in cands if n and os.path.exists(os.path.join(di, n + '.covmat'))]
            f = IniFile(i.iniFile(), keep_includes=True)
            c.check('covariance', f.params.get('propose_matrix') == (found[0] if found else None), lambda: '%s want %s' % (f.params.get('propose_matrix'), found))
            spec = any(os.path.exists(os.path.join(di, n + '.covmat')) for di, n in cands[:specific])
            c.check('update', f.params.get('MPI_Max_R_ProposeUpdate') == (None if spec and hasattr(st, 'newCovmats') else '20'))
            c.check('start', f.params['start_at_bestfit'] == ('T' if best else 'F') and os.path.exists(i.iniFile('_minimize')) == (not best))
            prior = getattr(st, 'params', gc.default_params)
            extra = {'default': gc.default_param_extra_opts, 'none': {}, 'own': getattr(st, 'param_extra_opts', None) or {}}[pe]
            want = {}
            for p in params:
                want['param[%s]' % p] = prior[p]
                for k, v in extra.get(p, {}).items():
                    want[k] = {True: 'T', False: 'F'}[v] if isinstance(v, bool) else str(v)
            fixed = {'file_root': i.chainRoot, 'action': '0', 'd_opt': 'a'}
            want.update(fixed)
            for k in ('propose_matrix', 'MPI_Max_R_ProposeUpdate', 'start_at_bestfit'):
                f.params.pop(k, None)
            c.check('settings', dict(f.params) == want, lambda: '%s want %s' % (dict(f.params), want))
            c.check('includes', f.defaults == [b.commonPath + 'common%d.ini' % len(data)])
            if not best:
                m = IniFile(i.iniFile('_minimize'), keep_includes=True)
                want.update({'action': '2', 'lmin_store_all_cmb': '2500'})
                if 'omegak' in params:
                    want['accuracy_level'] = '1.2'
                if 'meffsterile' in params:
                    want['sterile_mphys_max'] = '10000'
                for k in ('propose_matrix', 'MPI_Max_R_ProposeUpdate', 'start_at_bestfit'):
                    m.params.pop(k, None)
                c.check('minimize', dict(m.params) == want, lambda: '%s want %s' % (dict(m.params), want))
            ns = gc.getArgs(['p', 'q', '--readOnly'])
            c.check('args', (ns.batchPath, ns.settingName, ns.readOnly) == ('p', 'q', True) and gc.getArgs(['p']).settingName is None and gc.getArgs(['p']).readOnly is False)
        finally:
            getdist.cache_dir = old


# ------------------------------------------------------------------------------------------ proofs for grids of any size
from types import SimpleNamespace      # noqa: E402
from pyvc.specs import LoopSpec, loopspec      # noqa: E402


class Emit:
    """ghost: how many items have been given out, the indices of the loops in progress, and the position every item should have"""

    def __init__(self):
        import z3
        from pyvc.core import cur
        self.ctx, self.out, self.ks, self.off, self.defs, self.done = cur(), z3.IntVal(0), {}, {}, [], []
        cur().emits, cur().ground = self, True

    def given(self, c, x):
        """the next item given out is one that should be, in its turn"""
        import z3
        f, at, kept, rng = x.place
        c.check('which', z3.And(*rng, kept))
        c.check('turn', f(*at) == self.out)
        self.out = z3.simplify(self.out + 1)

    def fn(self, name, n):
        import z3
        return z3.Function(name, *[z3.IntSort()] * (n + 1))


def emission(mod, qual, k, outer=()):
    import z3
    key = (qual, k)

    class Emission(LoopSpec):
        """as many items given out as stand before this place of the grid"""
        proof_only = True

        def applies(self, loop, it):
            from pyvc.core import cur
            return super().applies(loop, it) and key in getattr(cur().emits if hasattr(cur(), 'emits') else None, 'off', {})

        def invariant(self, loop, st, k):
            from pyvc.core import cur
            G = cur().emits
            at = [G.ks[(qual, o)] for o in outer] + [k]
            for d in G.defs:
                for f in d(*[G.ks.get((qual, o)) for o in range(6)]):
                    G.ctx.assume(f)
            return [('emitted', G.out == G.off[key](*at))] + [(nm, z3.BoolVal(f())) for nm, f in G.done]

        def havoc(self, loop, st):
            from pyvc.core import cur
            G = cur().emits
            G.ks[key], G.done = loop.k, []
            G.out = cur().fresh('given', loop.k.sort())
            loop.modifies = []
            self.assume_inv(loop, st)
            return {}
    loopspec(mod, qual, k)(Emission)


for _q, _k, _o in (('batchJob.makeItems', 0, ()), ('batchJob.makeItems', 1, (0,)), ('batchJob.makeItems', 2, (0, 1)), ('batchJob.makeItems', 3, ()),
                   ('batchJob.items', 0, ()), ('batchJob.items', 1, (0,)), ('batchJob.items', 2, ()), ('batchJob.items', 3, (2,))):
    emission('paramgrid.batchjob', _q, _k, _o)
emission('paramgrid.batchjob_args', 'batchArgs.filteredBatchItems', 0)


def run(gen, f):
    """consume a generator (its loops are under their invariants)"""
    for x in gen:
        f(x)


def slist(n, f):
    from pyvc.arr import SList
    from pyvc.core import lift
    return SList(n, lambda i: f(lift(i)))


@contract('C17', 'make_items_any', [B + 'batchJob.makeItems'], bounded=False, concrete=False, timeout=120,
          note='any number of groups, data sets and parameter sets; jobItem and makeImportance through their contracts')
def _(c):
    """one item for each combination of each group that is not excluded, in grid order, with the settings and importance runs of its group"""
    import z3
    bj = c.module('paramgrid.batchjob')
    G = Emit()
    ctx = G.ctx
    I, B_ = z3.IntSort(), z3.BoolSort()
    nG, nJ = c.dim('groups', lo=0).t, c.dim('given', lo=0).t
    nD, nP = z3.Function('data_sets', I, I), z3.Function('param_sets', I, I)
    skip = z3.Function('excluded', I, I, I, B_)
    o1, o2, o3, o4 = G.fn('items_before_group', 1), G.fn('items_before_data', 2), G.fn('items_before', 3), G.fn('items_before_given', 1)
    Q = 'batchJob.makeItems'
    G.off = {(Q, 0): o1, (Q, 1): o2, (Q, 2): o3, (Q, 3): o4}

    def defs(g, d, p, q, *_):
        # the counts, unfolded at the places in question
        out = [o1(0) == 0, o4(0) == o1(nG)]
        if g is not None:
            out += [nD(g) >= 0, nP(g) >= 0, o2(g, 0) == o1(g), o1(g + 1) == o2(g, nD(g))]
        if d is not None:
            out += [o3(g, d, 0) == o2(g, d), o2(g, d + 1) == o3(g, d, nP(g))]
        if p is not None:
            out += [o3(g, d, p + 1) == o3(g, d, p) + z3.If(skip(g, d, p), 0, 1)]
        if q is not None:
            out += [o4(q + 1) == o4(q) + 1]
        return out
    G.defs = [defs]
    named, opts, popts, whole = c.flag('named'), c.flag('options'), c.flag('param_options'), c.flag('importance')

    class Name:
        def __init__(self, at):
            self.at = at

    class Skip:
        def __contains__(self, name):
            return ctx.branch(skip(*name.at))

    class Out:
        n = z3.IntVal(0)

        def append(self, x):
            g = x.group_of
            runs = lambda: [y for y in x.importance if not isinstance(y, Out)] == ([g.importanceRuns] if g else []) + ([ALL] if whole else [])
            # true when the iteration is over
            G.done.append(('importance', runs))
            if g:
                G.done += [('group', lambda: x.group == (g.groupName if named else None)),
                           ('options', lambda: getattr(x, 'extra_opts', None) == (g.extra_opts if opts else None)),
                           ('param options', lambda: getattr(x, 'param_extra_opts', None) == (g.param_extra_opts if popts else None))]
            G.given(c, x)

        def __iter__(self):
            return iter(())
    ALL = ['importance runs of the grid']

    class Item:
        def __init__(self, path, param_set, data_set, base='base', minimize=True):
            c.check('path', path == 'grid/')
            c.check('same group', param_set.of is data_set.of)
            g, d, p = param_set.of.g, data_set.d, param_set.p
            self.group_of, self.group, self.name, self.importance = param_set.of, None, Name((g, d, p)), []
            self.place = (o3, (g, d, p), z3.Not(skip(g, d, p)), [g >= 0, g < nG, d >= 0, d < nD(g), p >= 0, p < nP(g)])

        def makeImportance(self, runs):
            self.importance.append(runs)
    c.stub('paramgrid.batchjob', 'jobItem', Item)
    ctx.empty_list = Out
    b = c.partial(bj.batchJob)
    b.batchPath, b.getdist_options, b.skip = 'grid/', {}, Skip()
    b.items = lambda *a, **k: []

    def group(g):
        r = SimpleNamespace(g=g, importanceRuns=[('runs of group', g)])
        if named:
            r.groupName = ('name', g)
        if opts:
            r.extra_opts = ('options', g)
        if popts:
            r.param_extra_opts = ('param options', g)
        r.datasets = slist(nD(g), lambda d: SimpleNamespace(of=r, d=d))
        r.params = slist(nP(g), lambda p: SimpleNamespace(of=r, p=p))
        return r

    class Given:
        def __init__(self, q):
            self.group_of, self.importance = None, []
            self.place = (o4, (q,), z3.BoolVal(True), [q >= 0, q < nJ])

        def makeImportance(self, runs):
            self.importance.append(runs)
    s = SimpleNamespace(groups=slist(nG, group), jobItems=slist(nJ, Given))
    if whole:
        s.importanceRuns = ALL
    ctx.assume(z3.And(*defs(None, None, None, None)))
    if c.flag('getdist'):
        s.getdist_options = {'a': 1}
    b.makeItems(s)
    c.check('options kept', b.getdist_options == getattr(s, 'getdist_options', {}))
    c.check('held', isinstance(b.jobItems, Out))
    c.check('all', G.out == o4(nJ))


@contract('C17', 'items_any', [B + 'batchJob.items'], bounded=False, concrete=False, timeout=120, note='any number of items, importance runs and sub-grids (these through the same contract)')
def _(c):
    """items in grid order, each followed by its importance runs not excluded when these are wanted, then the items of the sub-grids"""
    import z3
    bj = c.module('paramgrid.batchjob')
    G = Emit()
    ctx = G.ctx
    I = z3.IntSort()
    subs, imps = c.flag('sub_items'), c.flag('importance')
    n, nB = c.dim('items', lo=0).t, c.dim('sub_grids', lo=0).t
    nR, nS = z3.Function('importance_runs', I, I), z3.Function('sub_items', I, I)
    skip = z3.Function('excluded', I, I, z3.BoolSort())
    o1, o2, o3, o4, oi = G.fn('before_item', 1), G.fn('before_run', 2), G.fn('before_sub_grid', 1), G.fn('before_sub_item', 2), G.fn('place_of_item', 1)
    Q = 'batchJob.items'
    G.off = {(Q, 0): o1, (Q, 1): o2, (Q, 2): o3, (Q, 3): o4}

    def defs(i, r, s, t, *_):
        out = [o1(0) == 0, o3(0) == o1(n)]
        if i is not None:
            out += [nR(i) >= 0, o2(i, 0) == o1(i) + 1, o1(i + 1) == (o2(i, nR(i)) if imps else o1(i) + 1)]
        if r is not None:
            out += [o2(i, r + 1) == o2(i, r) + z3.If(skip(i, r), 0, 1)]
        if s is not None:
            out += [nS(s) >= 0, o4(s, 0) == o3(s), o3(s + 1) == o4(s, nS(s))]
        if t is not None:
            out += [o4(s, t + 1) == o4(s, t) + 1]
        return out
    G.defs = [defs]
    ctx.assume(z3.And(*defs(None, None, None, None)))
    T = z3.BoolVal(True)

    class Skip:
        def __contains__(self, name):
            return ctx.branch(skip(*name))

    def item(i):
        def runs():
            return slist(nR(i), lambda r: SimpleNamespace(name=(i, r), place=(o2, (i, r), z3.And(z3.Not(skip(i, r)), imps), [i >= 0, i < n, r >= 0, r < nR(i)])))
        return SimpleNamespace(importanceJobsRecursive=runs, place=(o1, (i,), T, [i >= 0, i < n]))

    def sub(s):
        def items(wantSubItems=True, wantImportance=False):
            c.check('as asked', wantSubItems is subs and wantImportance is imps)
            return slist(nS(s), lambda t: SimpleNamespace(place=(o4, (s, t), z3.BoolVal(subs), [s >= 0, s < nB, t >= 0, t < nS(s)])))
        return SimpleNamespace(items=items)
    b = c.partial(bj.batchJob)
    b.skip, b.jobItems, b.subBatches = Skip(), slist(n, item), slist(nB, sub)
    run(b.items(wantSubItems=subs, wantImportance=imps), lambda x: G.given(c, x))
    c.check('all', G.out == (o3(nB) if subs else o1(n)))


@contract('C17', 'filter_any', [A + 'filteredBatchItems'], bounded=False, concrete=False, timeout=120, note='any number of items; the single conditions through their contracts')
def _(c):
    """exactly the items of the grid that meet every condition, in grid order"""
    import z3
    ba = c.module('paramgrid.batchjob_args')
    G = Emit()
    I, n = z3.IntSort(), c.dim('items', lo=0).t
    conds = ('jobItemWanted', 'nameMatches', 'paramsMatch', 'dataMatches', 'groupMatches')
    P = {x: z3.Function('meets_' + x, I, z3.BoolSort()) for x in conds + ('exists',)}
    need, noimp, subs = c.flag('chain_exists'), c.flag('noimportance'), c.flag('sub_items')
    kept = lambda i: z3.And(*[P[x](i) for x in conds + (('exists',) if need else ())])
    off = G.fn('kept_before', 1)
    G.off = {('batchArgs.filteredBatchItems', 0): off}
    G.defs = [lambda i, *_: [off(0) == 0] + ([off(i + 1) == off(i) + z3.If(kept(i), 1, 0)] if i is not None else [])]
    G.ctx.assume(off(0) == 0)
    from pyvc.core import wrap

    def item(i):
        return SimpleNamespace(i=i, chainExists=lambda: wrap(P['exists'](i)), place=(off, (i,), kept(i), [i >= 0, i < n]))

    def items(wantSubItems=True, wantImportance=False):
        c.check('as asked', wantSubItems is subs and wantImportance is not noimp)
        return slist(n, item)
    a = c.partial(ba.batchArgs)
    a.batch, a.args = SimpleNamespace(items=items), SimpleNamespace(noimportance=noimp)
    for x in conds:
        setattr(a, x, lambda j, x=x: wrap(P[x](j.i)))
    run(a.filteredBatchItems(wantSubItems=subs, chainExist=need), lambda x: G.given(c, x))
    c.check('all', G.out == off(n))


def search(mod, qual, k, test):
    class Search(LoopSpec):
        """none of the elements before is what is looked for"""
        proof_only = True

        def applies(self, loop, it):
            from pyvc.core import cur
            return super().applies(loop, it) and hasattr(cur(), 'sought')

        def invariant(self, loop, st, k):
            from pyvc.core import cur
            import z3
            j = z3.Int('__j')
            m = cur().sought(j)
            return [('none before', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k), z3.Not(m)), patterns=[cur().element(j)]))]

        def havoc(self, loop, st):
            loop.modifies = []
            self.assume_inv(loop, st)
            return {}
    loopspec(mod, qual, k)(Search)


for _m, _q in (('batchjob', 'batchJob.normed_name_item'), ('batchjob', 'batchJob.hasName'), ('batchjob', 'batchJob.resolveRoot'), ('batchjob_args', 'batchArgs.nameMatches'), ('batchjob_args', 'batchArgs.paramsMatch')):
    search('paramgrid.' + _m, _q, 0, None)


@contract('C17', 'lookup_any', [B + 'batchJob.' + x for x in ('normed_name_item', 'has_normed_name', 'hasName', 'resolveRoot')], bounded=False, concrete=False, timeout=120, note='any number of items')
def _(c):
    """the first item in grid order with the name, or with the normalised name, other than the one to leave out; none if there is none"""
    import z3
    from pyvc import ustr as u
    from pyvc.core import cur
    bj = c.module('paramgrid.batchjob')
    ctx, I = cur(), z3.IntSort()
    n = c.dim('items', lo=0).t
    nm, norm = z3.Function('item_name', I, u.TEXT), z3.Function('item_normed_name', I, u.TEXT)
    what = u.UStr(z3.Const('name_sought', u.TEXT))
    ex = z3.Int('left_out')
    leave, subs, imps = c.flag('exclude'), c.flag('sub_items'), c.flag('importance')
    out = SimpleNamespace(name=u.UStr(nm(ex)), normed_name=u.UStr(norm(ex)), i=ex)

    def item(i):
        if leave and ctx.branch(i == ex):
            return out
        return SimpleNamespace(name=u.UStr(nm(i)), normed_name=u.UStr(norm(i)), i=i)
    asked = []

    def items(wantSubItems=True, wantImportance=False):
        asked.append((bool(wantSubItems), bool(wantImportance)))
        return slist(n, item)
    b = c.partial(bj.batchJob)
    b.items = items
    op = c.option('op', ['normed', 'has_normed', 'name', 'root'])
    x = z3.Int('some_item')
    ctx.assume(z3.And(x >= 0, x < n))

    def first(r, test, el):
        if r is None:
            c.check('none', z3.Implies(el(x) == el(x), z3.Not(test(x))))
        else:
            c.check('found', z3.And(r.i >= 0, r.i < n, test(r.i)))
            c.check('first', z3.Implies(z3.And(el(x) == el(x), x < r.i), z3.Not(test(x))))
    fits = lambda i: z3.And(norm(i) == what.t, z3.BoolVal(not leave) if not leave else i != ex)
    if op in ('normed', 'has_normed'):
        ctx.sought, ctx.element = fits, norm
        if op == 'normed':
            first(b.normed_name_item(what, subs, imps, out if leave else None), fits, norm)
        else:
            r = SimpleNamespace() if c.flag('there') else None

            def lookup(name, wantSubItems=True, wantImportance=False, exclude=None):
                c.check('passed', name is what and (bool(wantSubItems), bool(wantImportance)) == (subs, imps) and exclude is (out if leave else None))
                return r
            b.normed_name_item = lookup
            c.check('has', b.has_normed_name(what, subs, imps, out if leave else None) == (r is not None))
            return
    elif op == 'name':
        ctx.sought, ctx.element = (lambda i: nm(i) == what.t), nm
        r = b.hasName(what, subs)
        k = z3.Int('any_item')
        if r is True:
            c.check('some', z3.Exists([k], z3.And(k >= 0, k < n, nm(k) == what.t)))
        else:
            c.check('none', z3.And(z3.BoolVal(r is False), nm(x) != what.t))
        imps = False
    else:
        ctx.sought, ctx.element = (lambda i: nm(i) == what.t), nm
        back = SimpleNamespace(i=None)

        def by_normed(name, wantSubItems=True, wantImportance=False, exclude=None):
            c.check('passed', name is what and wantSubItems and wantImportance and exclude is None)
            c.check('no such name', nm(x) != what.t)
            return back
        b.normed_name_item = by_normed
        r = b.resolveRoot(what)
        if r is not back:
            first(r, lambda i: nm(i) == what.t, nm)
        subs = imps = True
    c.check('as asked', asked == [(subs, imps)])


@contract('C17', 'conditions_any', [A + x for x in ('nameMatches', 'paramsMatch')], bounded=False, concrete=False, timeout=120, note='any number of patterns and parameters; fnmatch, hasParam as given')
def _(c):
    """an item passes the name and parameter filters exactly when some pattern fits its name, some wanted parameter is one of its own and none unwanted is"""
    import z3
    from pyvc import ustr as u
    from pyvc.core import cur, wrap
    ba = c.module('paramgrid.batchjob_args')
    ctx, I = cur(), z3.IntSort()
    n = c.dim('patterns', lo=0).t
    pat = z3.Function('pattern', I, u.TEXT)
    pats = slist(n, lambda i: u.UStr(pat(i)))
    a = c.partial(ba.batchArgs)
    x, k = z3.Int('some_pattern'), z3.Int('any_pattern')
    ctx.assume(z3.And(x >= 0, x < n))

    def some(r, test):
        if r is True:
            c.check('some', z3.Exists([k], z3.And(k >= 0, k < n, test(k))))
        else:
            c.check('none', z3.And(z3.BoolVal(r is False), z3.Not(test(x))))
    if c.flag('names'):
        fits = z3.Function('fnmatch', u.TEXT, u.TEXT, z3.BoolSort())
        name = u.UStr(z3.Const('item_name', u.TEXT))
        c.stub('paramgrid.batchjob_args', 'fnmatch', SimpleNamespace(fnmatch=lambda s, p: wrap(fits(u.term(s), u.term(p)))))
        a.args = SimpleNamespace(name=pats)
        ctx.sought, ctx.element = (lambda i: fits(name.t, pat(i))), pat
        some(a.nameMatches(SimpleNamespace(name=name)), ctx.sought)
        a.args = SimpleNamespace(name=None)
        c.check('no filter', a.nameMatches(SimpleNamespace(name=name)) is True)
    else:
        own, skipped = z3.Function('own_parameter', u.TEXT, z3.BoolSort()), z3.Bool('has_unwanted')
        tags = z3.Function('wanted_tag', u.TEXT, z3.BoolSort())
        tag = u.UStr(z3.Const('paramtag', u.TEXT))

        class Set:
            def __init__(self, f):
                self.f = f

            def __contains__(self, y):
                return ctx.branch(self.f(u.term(y)))
        unwanted = ['w'] if c.flag('skip') else None
        item = SimpleNamespace(param_set=Set(own), paramtag=tag, hasParam=lambda y: wrap(skipped) if y is unwanted else None)
        how = c.option('by', ['none', 'param', 'tag'])
        a.args = SimpleNamespace(skip_param=unwanted, param=pats if how == 'param' else None, paramtag=Set(tags) if how == 'tag' else None)
        ctx.sought, ctx.element = (lambda i: own(pat(i))), pat
        r = a.paramsMatch(item)
        bad = z3.And(skipped, unwanted is not None)
        if how == 'param':
            if r is True:
                c.check('some', z3.And(z3.Not(bad), z3.Exists([k], z3.And(k >= 0, k < n, own(pat(k))))))
            else:
                c.check('none', z3.And(z3.BoolVal(r is False), z3.Or(bad, z3.Not(own(pat(x))))))
        else:
            c.check('tag', z3.BoolVal(bool(r)) == z3.And(z3.Not(bad), tags(tag.t) if how == 'tag' else True))


SETTINGS_FILE = '''from paramgrid import batchjob
ini_dir = 'batch3/'
defaults = ['common.ini']
importanceDefaults = ['imp.ini']


class Only(batchjob.importanceFilter):
    def wantImportance(self, jobItem):
        return %(only)r in jobItem.param_set

    def filter(self, batch, samples):
        return samples


groups = []
%(groups)s
'''


@contract('C17', 'reopen', [B + 'readobject', B + 'resetGrid', B + 'saveobject', B + 'grid_cache_file', B + 'batchJob.save', B + 'batchJob.makeDirectories', B + 'batchJob.__init__', 'paramgrid.gridconfig:makeGrid', 'paramgrid.gridconfig:pathIsGrid'], symbolic=False, runs=25)
def _(c):
    """a grid made from a settings file opens again as the same grid: from its cache, and from its stored settings with the items that have chains"""
    import sys
    import subprocess
    gc, bj = c.module('paramgrid.gridconfig'), c.module('paramgrid.batchjob')
    getdist = c.module('getdist')
    groups, _, _ = draw(c)
    only = c.option('only', ['mnu', 'w'])
    uid = 'grid_settings_%d' % c.int('uid', 0, 10 ** 9)
    text = ''
    for k, (name, params, data, gi) in enumerate(groups):
        text += 'g%d = batchjob.jobGroup(%r)\ng%d.params = %r\ng%d.datasets = [batchjob.dataSet(x) for x in %r]\n' % (k, name, k, params, k, data)
        text += 'g%d.importanceRuns = [Only(["cut"])]\ngroups.append(g%d)\n' % (k, k)
    path, cache, mods = list(sys.path), getdist.cache_dir, set(sys.modules)
    with tempfile.TemporaryDirectory() as d:
        try:
            getdist.cache_dir = None
            where = c.option('cache', ['grid', 'folder'])
            if where == 'folder':
                os.makedirs(d + '/cache')
                getdist.cache_dir = d + '/cache'
            os.makedirs(d + '/src')
            with open(d + '/src/%s.py' % uid, 'w') as f:
                f.write(SETTINGS_FILE % dict(only=only, groups=text))
            out = os.path.join(d, 'out')
            c.check('not_grid', not gc.pathIsGrid(out) and c.raises(Exception, lambda: gc.makeGrid(out)) and bj.readobject(out) is None)
            sys.path.insert(0, d + '/src')
            with quiet():
                b = gc.makeGrid(out, uid)
            tell = lambda b: [(i.name, i.chainRoot, i.normed_name, i.group, sorted(i.param_set), i.data_set.tag, getattr(getattr(i, 'parent', None), 'name', None)) for i in b.items(True, True)]
            want = tell(b)
            # every combination, and the filtered run of those that want it
            c.check('items', sorted(x[2] for x in want) == sorted([normed(p, q) for g, p, q, _ in full((groups, [], []), [])] + [normed(p, q + ['cut']) for g, p, q, _ in full((groups, [], []), []) if only in p]))
            c.check('config', sorted(os.listdir(out + '/config')) == sorted([uid + '.py', 'config.ini']))
            c.check('grid', gc.pathIsGrid(out))
            cached = bj.grid_cache_file(out)
            c.check('cache', os.path.exists(cached) and os.path.dirname(cached) == os.path.abspath(out if where == 'grid' else d + '/cache'))
            items = list(b.items())
            have = [i for i in items if c.flag('chain ' + i.name)]
            for i in have:
                open(i.chainRoot + '_1.txt', 'w').write('1 2 3\n')
            # as another process: the settings are only in the grid's own folder
            how = c.option('how', ['cached', 'reset', 'damaged'])

            def forget():
                sys.path[:] = path
                for m in set(sys.modules) - mods:
                    if 'grid_settings' in m:
                        del sys.modules[m]
            forget()
            os.remove(d + '/src/%s.py' % uid)
            if how == 'reset':
                bj.resetGrid(out)
                c.check('reset', not os.path.exists(cached))
            elif how == 'damaged':
                with open(cached, 'wb') as f:
                    f.write(b'junk')
            with quiet():
                r = bj.readobject(out)
            c.check('reopened', r is not None)
            names = {i.name for i in (items if how == 'cached' else have)}
            kept = [x for x in want if (x[6] or x[0]) in names]
            c.check('same', tell(r) == kept, lambda: '%s want %s' % (tell(r), kept))
            if kept and how == 'cached':
                c.check('path', r.batchPath == b.batchPath and r.basePath == b.basePath and r.commonPath == b.commonPath)
            forget()
            with quiet():
                r = bj.readobject(out)
            c.check('again', tell(r) == kept)
        finally:
            sys.path[:] = path
            getdist.cache_dir = cache


@contract('C17', 'results', [B + 'jobItem.' + x for x in ('R', 'hasConvergeBetterThan', 'chainBestfit', 'chainMinimumExists', 'chainMinimumConverged', 'getDistExists', 'loadJobItemResults', 'hasParam', 'notRunning', 'parentChanged', 'chainFinished')]
          + ['getdist.types:ConvergeStats.loadFromFile', 'getdist.types:MargeStats.addBestFit'], symbolic=False, runs=150)
def _(c):
    """what is asked about the results of an item is as in its files"""
    import time
    bj = c.module('paramgrid.batchjob')
    with tempfile.TemporaryDirectory() as d:
        i = bj.jobItem(d + os.sep, ['mnu', 'w'], [['a', 'b'], None])
        c.check('has', i.hasParam('mnu') and not i.hasParam('nnu') and not i.hasParam('m') and i.hasParam(['x', 'w']) and not i.hasParam(['x', 'y']) and not i.hasParam([]))
        i.makeChainPath()
        os.makedirs(i.distPath)
        c.check('nothing', i.chainBestfit() is None and not i.chainMinimumExists() and not i.chainMinimumConverged() and i.R() is None and not i.getDistExists())
        R = c.option('R', [None, 'empty', 0.00712, 0.02, 1.5])
        if R is not None:
            with open(i.distRoot + '.converge', 'w') as f:
                f.write('' if R == 'empty' else 'x\n\n var(mean)/mean(var) for eigenvalues\n  1      0.00100\n  2      %.5f\n\n 3  77\n' % R)
        for lim in (0.005, 0.00712, 0.01, 2):
            for absent in (True, False):
                want = absent if R in (None, 'empty') else float('%.5f' % R) <= lim
                c.check('better', bool(i.hasConvergeBetterThan(lim, absent)) == want)
            c.check('better_default', bool(i.hasConvergeBetterThan(lim)) == (R not in (None, 'empty') and float('%.5f' % R) <= lim))
        c.check('R', i.R() == (None if R in (None, 'empty') else float('%.5f' % R)))
        best = c.option('best', [None, 'empty', 12.5, 1e30])
        pars = ['p0', 'p1', 'p2']
        inbest = [p for p in pars if c.flag('in ' + p)]
        if best is not None:
            with open(i.chainRoot + '.minimum', 'w') as f:
                if best != 'empty':
                    f.write(' -log(Like) =  %s\n\n' % best + ''.join('%5d  %.7E  %s  lab%s\n' % (k + 1, k + 0.5, p, p) for k, p in enumerate(inbest)) + '\n\n')
        there = best not in (None, 'empty')
        c.check('minimum', i.chainMinimumExists() == there and (i.chainBestfit() is not None) == there and bool(i.chainMinimumConverged()) == (best == 12.5))
        dist = c.flag('getdist') and R not in (None, 'empty')
        if dist:
            with open(i.distRoot + '.margestats', 'w') as f:
                f.write('Marginalized limits: 0.68; 0.95\n\nparameter   mean  sddev  lower1  upper1  limit1  lower2  upper2  limit2\n'
                        + ''.join('%s  %s 1.0  0 1 two  -1 2 two  lab%s\n' % (p, k + 5, p) for k, p in enumerate(pars)))
            with open(i.distRoot + '.likestats', 'w') as f:
                f.write('Best fit sample -log(Like) = 3.5\nmean(-Ln(like)) = 5.25\n\n')
        c.check('exists', i.getDistExists() == dist)
        kw = {k: c.flag(k) for k in ('bestfit', 'bestfitonly', 'noconverge', 'silent') if c.flag('give ' + k)}
        with quiet() as said:
            i.loadJobItemResults(**kw)
        c.check('best', (i.result_bestfit is not None) == there and (not there or (i.result_bestfit.logLike, i.result_bestfit.list()) == (best, inbest)))
        read = dist and not kw.get('bestfitonly', False)
        c.check('read', (i.result_marge is not None) == read == (i.result_likemarge is not None))
        c.check('converge', (i.result_converge is not None) == (read and not kw.get('noconverge', False)))
        c.check('said', bool(said.getvalue()) == (not dist and not kw.get('bestfitonly', False) and not kw.get('silent', False)))
        if read:
            merged = there and kw.get('bestfit', True)
            c.check('params', i.result_marge.list() == (inbest if merged else pars))
            for p in i.result_marge.names:
                c.check('values', p.mean == 5 + pars.index(p.name) and (not merged or p.best_fit == inbest.index(p.name) + 0.5))
        # importance runs: of the parent they were made from
        x = bj.importanceSetting(['imp'])
        i.makeImportance([x])
        j = i.importanceJobs()[0]
        c.check('absent', not j.chainFinished() and j.parentChanged() and not j.notRunning())
        now = time.time()

        def put(name, age, text='1 2 3\n'):
            open(name, 'w').write(text)
            os.utime(name, (now - age, now - age))
        pa, ja = c.option('parent age', [10, 250, 4000]), c.option('age', [100, 400, 3000])
        put(i.chainName(), pa)
        put(j.chainName(), ja)
        done = c.option('done', [None, 'Done', 'no'])
        if done:
            put(i.chainRoot + '.converge_stat', 0, '0.01\n%s\n' % done)
        c.check('changed', bool(j.parentChanged()) == (ja > pa))
        c.check('quiet', bool(j.notRunning()) == (ja > 300) and bool(i.notRunning()) == (pa > 300))
        c.check('finished', bool(j.chainFinished()) == (done == 'Done' and ja <= pa and ja > 300) and bool(i.chainFinished()) == (done == 'Done'))
