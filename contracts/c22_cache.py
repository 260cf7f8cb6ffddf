"""C22: loading through the cache gives the same samples as loading afresh"""
import copy
import logging
import os
import pickle
import shutil
import tempfile
import numpy as np
from pyvc.api import contract, Skip

M = 'getdist.mcsamples:'
CH = 'getdist.chains:'


class Job(object):
    """stand-in for a grid item"""
    def __init__(self, imp, burn, path):
        self.isImportanceJob, self.burn, self.batchPath, self.chainRoot = imp, burn, path, path + 'x'

    def isBurnRemoved(self):
        return self.burn


SETTINGS = [None, {}, {'ignore_rows': 0}, {'ignore_rows': 0.5}, {'ignore_rows': 2}, {'contours': '0.5 0.9'}, {'contours': '0.68 0.95'}, {'min_weight_ratio': 0.2}, {'min_weight_ratio': 1e-30},
            {'num_bins': 77}, {'range_confidence': 0.1}, {'max_frac_twotail': 0.3}, {'force_twotail': True}, {'fine_bins': 512}, {'marker[a]': 1.5}, {'marker[a]': 2.5, 'marker[b]': 0.25},
            {'limits[a]': '-9 9'}, {'limits[b]': '-8 N'}, {'ignore_rows': 0, 'contours': '0.5', 'num_bins_2D': 31}, {'boundary_correction_order': 0}, {'credible_interval_threshold': 0.2},
            {'all_limits': 'N 50'}, {'range_ND_contour': 0}, {'converge_test_limit': 0.8}]
NAMES = ['a', 'b', 'c*']


class World(object):
    """a folder with chains, and what may be done to it between loads"""
    def __init__(self, c, d):
        self.c, self.d, self.t = c, d, 1500000000.0
        self.r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
        self.sep = c.option('separator', ['_', '_', '.'])
        self.kept = {}
        os.makedirs(d)
        self.root = os.path.join(d, 'ch')
        self.ini_file = os.path.join(d, 'my.ini')
        if self.sep == '.':
            self.write('.updated.yaml', self.yaml())
        else:
            self.write('.paramnames', self.names())
        if c.flag('ranges'):
            self.write('.ranges', self.ranges())
        for i in range(c.int('nchain', 1, 3)):
            self.write('%s%d.txt' % (self.sep, i + 1), self.chain())
        # another root of the same folder, and of another
        os.makedirs(os.path.join(d, 'sub'))
        for other in (self.root + '2', os.path.join(d, 'sub', 'ch')):
            self.write('%s1.txt' % self.sep, self.chain(), other)
            if self.sep == '.':
                self.write('.updated.yaml', self.yaml(), other)
            else:
                self.write('.paramnames', self.names(), other)

    def tick(self):
        self.t += self.r.choice([1.0, 10.0, 5000.0])
        return self.t

    def write(self, ext, text, root=None):
        f = (root or self.root) + ext
        with open(f, 'w') as h:
            h.write(text)
        os.utime(f, (self.t, self.tick()))

    def names(self):
        lab = self.r.choice(['A', r'\alpha', ''])
        return 'a %s\nb B\nc* C_%d\n' % (lab, self.r.randint(9))

    def ranges(self):
        return self.r.choice(['a -20 20\nb N N\nc N N\n', 'a -3 N\nb N 4\nc N N\n', 'b -7 9\nd 0.5 0.5\n', 'a N 2\n'])

    def yaml(self):
        return 'params:\n  a:\n    prior: [%d, 20]\n    latex: %s\n  b:\n    prior: {min: -30, max: 30}\n  c:\n    derived: true\nlikelihood:\n  one:\nsampler:\n  %s:\n' % (
            -self.r.randint(5, 30), self.r.choice(['A', r'\beta']), self.r.choice(['mcmc', 'mcmc', 'polychord']))

    def chain(self, n=None):
        n = n or self.r.randint(20, 40)
        x = self.r.randn(n, 3)
        x[:, 2] = x[:, 0] * 2 if self.r.rand() < .5 else 0.5
        w = self.r.randint(1, 10, n)
        L = 0.5 * (x[:, :2] ** 2).sum(axis=1) + self.r.choice([0, 5])
        if self.sep == '.':
            # Cobaya also has its prior and chi-squared columns
            x = np.column_stack([x, np.ones(n), np.ones(n), 2 * L, 2 * L])
        return '\n'.join(' '.join('%.8g' % v for v in row) for row in np.column_stack([w, L, x])) + '\n'

    def files(self, ext=''):
        base = os.path.basename(self.root) + self.sep
        return sorted(os.path.join(self.d, f) for f in os.listdir(self.d) if f.startswith(base) and f.endswith('.txt') and f[len(base):-4].isdigit())

    def change(self, what):
        fs = self.files()
        if what == 'append' and fs:
            f = fs[self.r.randint(len(fs))]
            self.write(f[len(self.root):], open(f).read() + self.chain(3))
        elif what == 'edit' and fs:
            self.write(fs[-1][len(self.root):], self.chain())
        elif what == 'one number' and fs:
            t = open(fs[0]).read()
            self.write(fs[0][len(self.root):], ('3' if t[0] != '3' else '4') + t[1:])
        elif what == 'remove' and len(fs) > 1:
            f = fs[self.r.randint(len(fs))]
            self.kept[f] = (open(f).read(), os.path.getmtime(f))
            os.remove(f)
        elif what == 'remove all':
            for f in fs:
                self.kept[f] = (open(f).read(), os.path.getmtime(f))
                os.remove(f)
        elif what == 'restore' and self.kept:
            f, (t, m) = self.kept.popitem()
            with open(f, 'w') as h:
                h.write(t)
            os.utime(f, (m, m))  # as copied back with its time
        elif what == 'old version' and fs:
            self.write(fs[0][len(self.root):], self.chain())
            os.utime(fs[0], (1.4e9, 1.4e9))
        elif what == 'add':
            self.write('%s%d.txt' % (self.sep, len(fs) + 1 + self.r.randint(2)), self.chain())
        elif what == 'names':
            if self.sep == '.':
                self.write('.updated.yaml', self.yaml())
            else:
                self.write('.paramnames', self.names())
        elif what == 'ranges':
            self.write('.ranges', self.ranges())
        elif what == 'yaml':
            self.write('.updated.yaml', self.yaml())
        elif what == 'remove ranges' and os.path.exists(self.root + '.ranges'):
            os.remove(self.root + '.ranges')
        elif what == 'properties':
            self.write('.properties.ini', self.r.choice(['burn_removed = T\n', 'label = zz\n', 'sampler = nested\nburn_removed = T\n', 'sampler = uncorrelated\n', 'ignore_rows = 0.2\n', 'label = \n']))
        elif what == 'remove properties' and os.path.exists(self.root + '.properties.ini'):
            os.remove(self.root + '.properties.ini')
        elif what == 'ini':
            with open(self.ini_file, 'w') as h:
                h.write(self.r.choice(['ignore_rows = 0.1\ncontours = 0.6 0.9\n', 'num_bins = 50\nignore_rows = 0\ncontours = 0.68\n', 'marker[b] = 3\ncontours = 0.7 0.9\nignore_rows = 4\n']))
        else:
            return False
        return True


CHANGES = ['append', 'edit', 'one number', 'remove', 'remove all', 'restore', 'old version', 'add', 'names', 'ranges', 'remove ranges', 'properties', 'remove properties', 'ini', 'yaml', 'none', 'none']


def eq(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return a is not None and b is not None and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
    return a == b


def summary(s, deep):
    """what a user can see of loaded samples"""
    p = s.paramNames
    out = {'samples': s.samples, 'weights': s.weights, 'loglikes': s.loglikes, 'names': p.list(), 'labels': p.labels(), 'derived': [q.isDerived for q in p.names],
           'sampler': s.sampler, 'label': s.label, 'root': s.root, 'numrows': s.numrows, 'markers': dict(s.markers), 'means': s.getMeans(), 'cov': s.getCov(), 'norm': s.norm,
           'ranges': [(n, s.ranges.getLower(n), s.ranges.getUpper(n), s.ranges.fixedValue(n)) for n in s.ranges.names], 'offsets': s.chain_offsets,
           'name_tag': s.name_tag, 'batch_path': s.batch_path, 'job': s.jobItem, 'rootname': s.rootname, 'properties': dict(s.properties.params), 'index': dict(s.index),
           'meanlike': s.mean_loglike, 'needs_update': s.needs_update}
    for k in ('num_bins', 'num_bins_2D', 'fine_bins', 'contours', 'max_frac_twotail', 'force_twotail', 'range_confidence', 'ignore_rows', 'ignore_frac', 'min_weight_ratio', 'converge_test_limit',
              'boundary_correction_order', 'credible_interval_threshold', 'range_ND_contour', 'smooth_scale_1D'):
        out['setting ' + k] = getattr(s, k)
    ls = s.getLikeStats()
    out['likestats'] = None if ls is None else str(ls)
    if deep:
        for n in p.list():
            d = s.get1DDensity(n)
            out['density ' + n] = None if d is None else d.P
            out['grid ' + n] = None if d is None else d.x
        ms = s.getMargeStats()
        out['limits'] = [(q.name, q.mean, q.err, [(l.lower, l.upper, l.limitTag()) for l in q.limits]) for q in ms.names]
        out['bounds'] = [(n, b.getLower(n), b.getUpper(n)) for b in [s.getBounds()] for n in p.list()]
    return out


def load(m, getdist, cache, cwd, root, **k):
    """loading with the given cache folder"""
    old, here = getdist.cache_dir, os.getcwd()
    getdist.cache_dir = cache
    if cwd:
        os.chdir(cwd)
    try:
        return m.loadMCSamples(root, **k)
    finally:
        getdist.cache_dir = old
        os.chdir(here)


@contract('C22', 'histories', [M + 'loadMCSamples', M + 'MCSamples.readChains', M + 'MCSamples.__init__', M + 'MCSamples.updateSettings', M + 'MCSamples._burnFraction', M + 'MCSamples.savePickle',
                               CH + 'chainFiles', CH + 'last_modified', 'getdist:make_cache_dir'], symbolic=False, runs=120)
def _(c):
    """a load gives what it gives with an empty cache, after any changes of files and settings between loads; what the caller passes and has is not changed"""
    m, getdist = c.module('getdist.mcsamples'), c.module('getdist')
    c.module('getdist.chains').print_load_details = False
    logging.disable(logging.CRITICAL)
    with tempfile.TemporaryDirectory() as top:
        w = World(c, os.path.join(top, 'chains'))
        cache = c.option('cache', [os.path.join(top, 'cache'), os.path.join(top, 'cache'), None])
        steps = c.int('steps', 2, 6)
        repeat = c.flag('repeat')  # the same load each time, with one change of files between
        earlier = []
        for k in range(steps):
            for what in c._in('changes%d' % k, lambda: tuple(c.rng.choice(CHANGES) for _ in range(1 if repeat else c.rng.choice([0, 1, 1, 2])))) if k else []:
                w.change(what)
            st = c._in('settings%d' % k, lambda: c.rng.choice(SETTINGS))
            if k and (repeat or c.flag('same%d' % k)):
                st = last[0]
            kw = {'settings': copy.deepcopy(st)}
            ini = None if repeat else c.option('ini%d' % k, [None, None, 'file', 'object', 'other'])
            if ini:
                if not os.path.exists(w.ini_file):
                    w.change('ini')
                I = c.module('getdist.inifile').IniFile
                kw['ini'] = w.ini_file if ini == 'file' else I(w.ini_file)
                if ini == 'other':
                    kw['ini'].params['contours'] = '0.4 0.6'
            job = None if repeat else c.option('job%d' % k, [None, None, None, (False, False), (True, False), (False, True)])
            if job:
                kw['jobItem'] = Job(job[0], job[1], '/grid%d/' % k)
            cwd, root = c.option('from%d' % k, [(None, w.root), (None, w.root), (w.d, 'ch'), (top, 'chains/ch'), (os.path.join(w.d, 'sub'), '../ch'), (None, os.path.join(w.d, 'sub', 'ch')), (None, w.root + '2')])
            if cache is None and cwd == w.d or repeat:
                cwd, root = None, w.root
            last = [st]
            no = not repeat and c.flag('no_cache%d' % k) and c.flag('no_cacheb%d' % k)
            spoil = None if repeat else c.option('spoil%d' % k, [None] * 6 + ['cut', 'old', 'junk', 'other version'])
            if spoil and cache and os.path.isdir(cache):
                for f in os.listdir(cache):
                    damage(os.path.join(cache, f), spoil)
            before = {f: (open(os.path.join(w.d, f), 'rb').read(), os.path.getmtime(os.path.join(w.d, f))) for f in os.listdir(w.d) if os.path.isfile(os.path.join(w.d, f)) and not f.endswith('.py_mcsamples')}
            # what it should be: a load with a cache folder that is empty
            fresh = tempfile.mkdtemp(dir=top)
            kw2 = dict(kw, settings=copy.deepcopy(kw['settings']), ini=copy.deepcopy(kw.get('ini')))
            try:
                want = load(m, getdist, fresh, cwd, root, **kw2)
                err = None
            except Exception as e:
                want, err = None, e
            if not want and not isinstance(err, (OSError, ValueError)):
                raise err
            try:
                got = load(m, getdist, cache, cwd, root, no_cache=no, **kw)
                err2 = None
            except Exception as e:
                got, err2 = None, e
            c.check('error', type(err) is type(err2), lambda: '%r want %r' % (err2, err))
            c.check('settings', kw['settings'] == st)
            if ini in ('object', 'other'):
                c.check('ini', kw['ini'].params == kw2['ini'].params == dict(I(w.ini_file).params, **({'contours': '0.4 0.6'} if ini == 'other' else {})))
            after = {f: (open(os.path.join(w.d, f), 'rb').read(), os.path.getmtime(os.path.join(w.d, f))) for f in os.listdir(w.d) if os.path.isfile(os.path.join(w.d, f)) and not f.endswith('.py_mcsamples')}
            c.check('files', before == after)
            if got is None:
                continue
            deep = c.rng.random() < 0.25
            A, B = summary(got, deep), summary(want, deep)
            for q in B:
                c.check('same ' + q.split()[0], eq(A[q], B[q]), lambda: '%s: %r want %r' % (q, A[q], B[q]))
            # changes of one loaded set reach no other, nor the cache
            for o, was in earlier:
                now = summary(o, False)
                for q in was:
                    c.check('separate', eq(now[q], was[q]), q)
            earlier = [(got, copy.deepcopy({q: v for q, v in summary(got, False).items() if q != 'job'}))]
            if c.flag('use%d' % k):
                got.weights *= 2
                got.samples[:] = 0.25
                got.updateSettings({'contours': '0.1 0.2'}, doUpdate=False)
                got.ranges.setRange('a', (0, 1))
                earlier = []


def damage(f, how):
    if how == 'cut':
        b = open(f, 'rb').read()
        t = os.path.getmtime(f)
        with open(f, 'wb') as h:
            h.write(b[:len(b) // 2])
        os.utime(f, (t, t))
    elif how == 'junk':
        with open(f, 'wb') as h:
            h.write(b'\x80\x03not a pickle')
    elif how == 'old':
        os.utime(f, (1.3e9, 1.3e9))
    elif how == 'other version':
        with open(f, 'rb') as h:
            try:
                o = pickle.load(h)
            except Exception:
                return
        o.version = 1
        o.samples = np.zeros((3, 3))
        with open(f, 'wb') as h:
            pickle.dump(o, h)


@contract('C22', 'used', [M + 'loadMCSamples'], symbolic=False, runs=30)
def _(c):
    """chains are read once for the same files and settings, the cache is removed on request, and a root without chains is an error"""
    m, getdist = c.module('getdist.mcsamples'), c.module('getdist')
    c.module('getdist.chains').print_load_details = False
    logging.disable(logging.CRITICAL)
    with tempfile.TemporaryDirectory() as top:
        w = World(c, os.path.join(top, 'chains'))
        cache = os.path.join(top, 'cache')
        st = c._in('settings', lambda: c.rng.choice(SETTINGS))
        try:
            A = load(m, getdist, cache, None, w.root, settings=st)
        except ValueError:  # burn-in removal asked for a nested sampler
            raise Skip
        n = os.listdir(cache)
        c.check('written', len(n) == 1)
        B = load(m, getdist, cache, None, w.root, settings=st)
        c.check('again', np.array_equal(A.samples, B.samples) and os.listdir(cache) == n)
        load(m, getdist, cache, None, w.root, settings=st, no_cache=True)
        c.check('removed', os.listdir(cache) == [])
        c.check('none', c.raises((IOError,), lambda: load(m, getdist, cache, None, os.path.join(w.d, 'nope'), settings=st)))
        c.check('nothing', os.listdir(cache) == [])
        # the same relative root from another folder, with files of the same names, sizes and times
        far = os.path.join(top, 'elsewhere')
        os.makedirs(far)
        for f in os.listdir(w.d):
            if os.path.isfile(os.path.join(w.d, f)) and not f.endswith('.py_mcsamples'):
                shutil.copy2(os.path.join(w.d, f), far)
        for f in w.files():
            g = os.path.join(far, os.path.basename(f))
            lines = open(f).read().split('\n')[:-1]
            with open(g, 'w') as h:
                h.write('\n'.join(lines[::-1]) + '\n')
            os.utime(g, (os.path.getatime(f), os.path.getmtime(f)))
        rel = c.option('relative', ['ch', './ch'])
        for k in c.option('order', [(0, 1, 0), (1, 0, 1)]):
            d = (w.d, far)[k]
            A = load(m, getdist, cache, d, rel, settings=st)
            B = load(m, getdist, tempfile.mkdtemp(dir=top), d, rel, settings=st)
            c.check('of that folder', np.array_equal(A.samples, B.samples) and np.array_equal(A.weights, B.weights))


@contract('C22', 'arguments', [M + 'MCSamples.__init__', M + 'MCSamples.updateSettings'], symbolic=False, runs=60)
def _(c):
    """making a sample set changes none of the arguments, and a later change of them does not change the set"""
    m = c.module('getdist.mcsamples')
    logging.disable(logging.CRITICAL)
    c.module('getdist.chains').print_load_details = False
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n = 40
    X, W, L = r.randn(n, 2), r.randint(1, 5, n) * 1.0, r.rand(n)
    st = copy.deepcopy(c._in('settings', lambda: c.rng.choice(SETTINGS)))
    names, labels, ranges, renames = ['a', 'b'], ['A', 'B'], {'a': (-9, None), 'b': [None, 8]}, {'a': 'zz'}
    kw = {}
    if c.flag('ignore'):
        kw['ignore_rows'] = c.option('rows', [0, 0.25, 3])
    I = c.module('getdist.inifile').IniFile
    ini = None
    if c.flag('ini'):
        ini = I()
        ini.params.update({'contours': '0.3 0.6', 'num_bins': '55'})
    args = (X, W, L, st, names, labels, ranges, renames, ini and ini.params)
    was = copy.deepcopy(args)
    s = m.MCSamples(samples=X, weights=W, loglikes=L, settings=st, names=names, labels=labels, ranges=ranges, renames=renames, ini=ini, **kw)
    s.getMargeStats()
    s.updateSettings({'contours': '0.45 0.7'})
    s.get2DDensity('a', 'b')
    c.check('arguments', all(eq(p, q) for p, q in zip(args, was)), lambda: str([(p, q) for p, q in zip(args, was) if not eq(p, q)])[:500])
    b = summary(s, False)
    names[0], labels[0] = 'q', 'Q'
    ranges['a'] = (0, 1)
    renames['a'] = 'other'
    if st:
        st.clear()
    if ini:
        ini.params.clear()
    now = summary(s, False)
    for k in b:
        c.check('kept', eq(now[k], b[k]), k)


# ------------------------------------------------------------------ the decision to use the cache, for arbitrary times, sizes and settings
class Files(object):
    """ghost file system: {name: (time, size)}; its contents are what was written by earlier loads"""
    def __init__(self, folder, state, cache, tcache):
        self.folder, self.state, self.cache, self.tcache, self.saved, self.gone = folder, state, cache, tcache, None, False

    def known(self, f):
        d, b = os.path.split(f)
        if b.endswith('.py_mcsamples'):
            return 'cache' if self.cache is not None and not self.gone or self.saved is not None else None
        return b if d == self.folder and b in self.state else None


class FakePath(object):
    split, join, basename, dirname, abspath, splitext, sep = os.path.split, os.path.join, os.path.basename, os.path.dirname, os.path.abspath, os.path.splitext, os.sep
    isabs, normpath, realpath = os.path.isabs, os.path.normpath, os.path.normpath

    def __init__(self, fs):
        self.fs = fs
        for n in ('split', 'join', 'basename', 'dirname', 'abspath', 'splitext', 'isabs', 'normpath'):
            setattr(self, n, getattr(os.path, n))
        self.realpath = os.path.normpath

    def exists(self, f):
        return f in (self.fs.folder, '/cache') or self.fs.known(f) is not None

    isfile = exists

    def isdir(self, f):
        return f in (self.fs.folder, '/cache')

    def getmtime(self, f):
        k = self.fs.known(f)
        if k is None:
            raise FileNotFoundError(f)
        return self.fs.tcache if k == 'cache' else self.fs.state[k][0]

    def getsize(self, f):
        k = self.fs.known(f)
        if k is None or k == 'cache':
            raise FileNotFoundError(f)
        return self.fs.state[k][1]


class FakeOS(object):
    def __init__(self, fs):
        self.fs, self.path, self.curdir, self.sep = fs, FakePath(fs), os.curdir, os.sep
        self.makedirs = self.mkdir = lambda *a, **k: None

    def listdir(self, d):
        return list(self.fs.state) + ['other.txt']

    def remove(self, f):
        if self.fs.known(f) != 'cache':
            raise FileNotFoundError(f)
        self.fs.gone, self.fs.saved = True, None


class Open(object):
    def __init__(self, fs, f, mode='r'):
        if fs.known(f) != 'cache' or mode != 'rb':
            raise FileNotFoundError(f)
        self.fs = fs

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class FakePickle(object):
    HIGHEST_PROTOCOL = -1

    @staticmethod
    def load(f):
        return copy.copy(f.fs.cache)


def load_once(c, m, fs, par, burn, files, no_cache, version):
    """one execution of loadMCSamples in a ghost file system; MCSamples is replaced by its contract:
    the samples read are a function of the files (names, times, sizes), the settings and the burn-in fraction"""
    class Ini(object):
        params = par

    class Stand(object):
        def __init__(self, root=None, jobItem=None, ini=None, settings=None, **k):
            self.root, self.jobItem, self.ini, self.version, self.batch_path = root, jobItem, Ini, version, ''
            self.content = None
            self.ignore_rows, self.ignore_frac, self.min_weight_ratio, self.contours = 0, 0, 1e-30, [0.68]

        def _burnFraction(self):
            return burn

        def updateSettings(self, *a, **k):
            pass

        def readChains(self, f):
            c.check('chain files', list(f) == files)
            self.content = (dict(fs.state), dict(par), burn)
            return self

        def savePickle(self, f):
            c.check('saved as cache', f.endswith('.py_mcsamples') and fs.saved is None)
            fs.saved = copy.copy(self)

    import getdist.chains as ch
    import getdist
    old = [(m, n, m.__dict__.get(n)) for n in ('MCSamples', 'os', 'pickle', 'open', 'chainFiles')] + [(ch, 'os', ch.os), (getdist, 'make_cache_dir', getdist.make_cache_dir)]
    try:
        m.MCSamples, m.os, m.pickle, m.open = Stand, FakeOS(fs), FakePickle, lambda f, mode='r', *a, **k: Open(fs, f, mode)
        m.chainFiles = lambda root, *a, **k: [] if (k.get('separator', '_') == '_') != (not files or '_' in files[0]) else [os.path.join(fs.folder, f) for f in files]
        ch.os = m.os
        getdist.make_cache_dir = lambda: '/cache'
        files = [os.path.join(fs.folder, f) for f in files]
        return m.loadMCSamples(os.path.join(fs.folder, 'ch'), no_cache=no_cache)
    finally:
        for o, n, v in old:
            if v is None:
                o.__dict__.pop(n, None)
            else:
                setattr(o, n, v)


LISTS = [['ch_1.txt'], ['ch_1.txt', 'ch_2.txt'], ['ch_2.txt']]
META = [['ch.paramnames'], ['ch.paramnames', 'ch.ranges'], ['ch.paramnames', 'ch.properties.ini'], ['ch.paramnames', 'ch.ranges', 'ch.updated.yaml'], ['ch.full.yaml', 'ch.updated.yaml']]


def world(c, tag, key=0):
    fs = {}
    files = c.option(tag + 'files', LISTS)
    for i, f in enumerate(files + c.option(tag + 'meta', META)):
        fs[f] = (c.real('%st%d' % (tag, i)), c.int('%ss%d' % (tag, i), 0, 10 ** 6))
    return fs, files


@contract('C22', 'decision', [M + 'loadMCSamples', CH + 'last_modified'], timeout=200, paths=6000, concrete=False, bounded=False,
          note='any file times, sizes, settings and burn-in fractions, any two moments of a history; up to two chain files and five patterns of other files',
          assumes=['C22: a file whose time and size are unchanged has not changed', 'C22: reading chains is a function of the files, the settings and the burn-in fraction (contract of MCSamples.readChains)',
                   'C22: unpickling returns the object that was pickled'])
def _(c):
    """what is loaded with a cache saved at any earlier moment is what reading the files gives now; only what was read from the files is saved.  By induction the cache is
    always that of a load without cache, so the two moments stand for any history"""
    m = c.module('getdist.mcsamples')
    s1, f1 = world(c, 'a')
    s2, f2 = world(c, 'b')
    p1, p2 = {'x': c.real('p1'), 'y': c.real('q1')}, {'x': c.real('p2'), 'y': c.real('q2')}
    b1, b2 = c.real('b1'), c.real('b2')
    first = Files('/data', s1, None, c.real('ta'))
    r1 = load_once(c, m, first, p1, b1, f1, False, c.int('v1', 1, 9))
    c.check('first read', r1.content is not None and first.saved is not None and first.saved.content == r1.content)
    second = Files('/data', s2, first.saved, c.real('tb'))
    no = c.flag('no_cache')
    r2 = load_once(c, m, second, p2, b2, f2, no, c.int('v2', 1, 9))
    c.check('read', r2.content is not None)
    st, pa, bu = r2.content
    c.check('files', sorted(st) == sorted(s2), '%s %s' % (st, s2))
    for f in s2:
        c.check_eq('time', st[f][0], s2[f][0])
        c.check_eq('size', st[f][1], s2[f][1])
    for q in p2:
        c.check_eq('setting', pa[q], p2[q])
    c.check_eq('burn', bu, b2)
    if second.saved is not None:
        c.check('not on request', not no)
        c.check('what is saved', second.saved.content is r2.content and second.saved.content[0] == s2)
    c.check('removed', not no or second.known('/cache/x.py_mcsamples') is None)
