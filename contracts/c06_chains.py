"""C06: combining and separating chains conserves samples; chain file discovery"""
import os
import shutil
import tempfile

import numpy as np
from pyvc.api import contract

CH = 'getdist.chains:'
MC = 'getdist.mcsamples:MCSamples.'
COUNT = 'the number of chains is 1, 2 or 3; rows and parameters unbounded'


def chain_set(c, like=True, lo=1):
    """1 to 3 chains of arbitrary lengths"""
    ch = c.module('getdist.chains')
    k = c.option('k', [1, 2, 3])
    p = c.dim('p', small=(1,))
    ns = [c.dim('n%d' % i, lo=lo, small=(lo, lo + 1)) for i in range(k)]
    X = [c.array('X%d' % i, (ns[i], p)) for i in range(k)]
    w = [c.array('w%d' % i, (ns[i],), gen='weight', pred=lambda x: x > 0) for i in range(k)]
    for i in range(k):
        c.assume(c.sum(ns[i], lambda j: c.at(w[i], j)) > 0)
    L = [c.array('L%d' % i, (ns[i],)) for i in range(k)] if like else None
    s = ch.Chains(min_weight_ratio=-1)
    s.chains = [ch.WeightedSamples(samples=c.fresh_copy(X[i]), weights=c.fresh_copy(w[i]), loglikes=c.fresh_copy(L[i]) if like else None,
                                   min_weight_ratio=-1) for i in range(k)]
    return s, k, p, ns, X, w, L


def pick(c, ns, i, f):
    """value f(chain, row) of the i-th row of the concatenation"""
    off, r = 0, None
    offs = []
    for n in ns:
        offs.append(off)
        off = off + n
    if c.concrete:
        q = max(q for q in range(len(ns)) if i >= offs[q])
        return f(q, i - offs[q])
    r = f(len(ns) - 1, i - offs[-1])
    for q in range(len(ns) - 2, -1, -1):
        r = c.ite(i < offs[q + 1], f(q, i - offs[q]), r)
    return r


@contract('C06', 'makeSingle', [CH + 'Chains.makeSingle'], note=COUNT)
def _(c):
    s, k, p, ns, X, w, L = chain_set(c, c.flag('like'))
    s.makeSingle()
    N = sum(ns[1:], ns[0])
    c.check_arr('samples', s.samples, (N, p), lambda i, j: pick(c, ns, i, lambda q, r: c.at(X[q], r, j)))
    c.check_arr('weights', s.weights, (N,), lambda i: pick(c, ns, i, lambda q, r: c.at(w[q], r)))
    if L is None:
        c.check_is('loglikes', s.loglikes, None)
    else:
        c.check_arr('loglikes', s.loglikes, (N,), lambda i: pick(c, ns, i, lambda q, r: c.at(L[q], r)))
    c.check_eq('numrows', s.numrows, N)
    c.check_is('chains', s.chains, None)


@contract('C06', 'separate_again', [CH + 'Chains.makeSingle', CH + 'Chains.getSeparateChains'], note=COUNT)
def _(c):
    s, k, p, ns, X, w, L = chain_set(c, c.flag('like'))
    s.makeSingle()
    back = s.getSeparateChains()
    c.check('count', len(back) == k)
    for q in range(k):
        c.check_arr('samples', back[q].samples, (ns[q], p), lambda i, j: c.at(X[q], i, j))
        c.check_arr('weights', back[q].weights, (ns[q],), lambda i: c.at(w[q], i))
        if L is None:
            c.check_is('loglikes', back[q].loglikes, None)
        else:
            c.check_arr('loglikes', back[q].loglikes, (ns[q],), lambda i: c.at(L[q], i))


@contract('C06', 'burn_each_chain', [CH + 'Chains.removeBurnFraction'], note=COUNT)
def _(c):
    """burn-in removed from separate chains: from each chain"""
    s, k, p, ns, X, w, L = chain_set(c, True, lo=2)
    m = c.int('m', 1, 1 if c.concrete else None)
    for n in ns:
        c.assume(m < n)
    s.removeBurnFraction(m)
    for q in range(k):
        ch = s.chains[q]
        c.check_arr('samples', ch.samples, (ns[q] - m, p), lambda i, j: c.at(X[q], i + m, j))
        c.check_arr('weights', ch.weights, (ns[q] - m,), lambda i: c.at(w[q], i + m))
        c.check_arr('loglikes', ch.loglikes, (ns[q] - m,), lambda i: c.at(L[q], i + m))


@contract('C06', 'burn_combined', [CH + 'Chains.removeBurn', CH + 'Chains.removeBurnFraction', CH + 'Chains.getSeparateChains'], note=COUNT)
def _(c):
    """burn-in removed from combined chains: from the start; the rest still separates by chain"""
    s, k, p, ns, X, w, L = chain_set(c, True)
    N = sum(ns[1:], ns[0])
    m = c.int('m', 1, gen=lambda: c.rng.randint(1, max(1, int(N) - 1)))
    c.assume(m < N)
    s.makeSingle()
    s.removeBurnFraction(m)
    c.check_arr('samples', s.samples, (N - m, p), lambda i, j: pick(c, ns, i + m, lambda q, r: c.at(X[q], r, j)))
    back = s.getSeparateChains()
    c.check('count', len(back) == k)
    off = 0
    for q in range(k):
        # rows off .. off+ns[q] of the combination, less the first m
        lost = c.ite(m - off <= 0, 0, c.ite(m - off >= ns[q], ns[q], m - off)) if not c.concrete else min(max(m - off, 0), int(ns[q]))
        c.check_eq('rows', back[q].numrows, ns[q] - lost)
        c.check_arr('chain', back[q].weights, (ns[q] - lost,), lambda i: c.at(w[q], i + lost))
        off = off + ns[q]


def tagged(c, chm, mc=False, like=True):
    """chains whose rows carry (chain number, row number)"""
    k = c.int('k', 1, 4)
    X, W, L = [], [], []
    for q in range(k):
        n = c.int('n%d' % q, 2, 12)
        X.append(np.column_stack([np.full(n, q + 1.0), np.arange(n), np.arange(n) ** 2.0 + q]))
        W.append(c.array('w%d' % q, (n,), gen=lambda r, d: r.randint(1, 5, d).astype(float)))
        L.append(c.array('L%d' % q, (n,), gen=lambda r, d: r.rand(*d)))
    return X, W, L


@contract('C06', 'histories', [CH + 'Chains.loadChains', CH + 'Chains.makeSingle', CH + 'Chains.getSeparateChains', CH + 'Chains.filter', CH + 'Chains.thin',
                               CH + 'Chains.weighted_thin', CH + 'Chains.removeBurn', CH + 'Chains.addDerived'], symbolic=False, runs=500)
def _(c):
    """after any sequence of changes the separate chains are the rows of the combination, each in its own chain, in order"""
    chm = c.module('getdist.chains')
    chm.print_load_details = False
    X, W, L = tagged(c, chm)
    like = c.flag('like')
    cls = c.option('cls', ['Chains', 'MCSamples'])
    if cls == 'Chains':
        s = chm.Chains(names=['q', 'i', 'v'], min_weight_ratio=-1)
        s.loadChains('r', [x.copy() for x in X], weights=[w.copy() for w in W], loglikes=[x.copy() for x in L] if like else None)
        s.makeSingle()
    else:
        c.assume(len(X) > 1)
        s = c.module('getdist.mcsamples').MCSamples(samples=[x.copy() for x in X], weights=[w.copy() for w in W],
                                                    loglikes=[x.copy() for x in L] if like else None, names=['q', 'i', 'v'],
                                                    ignore_rows=0, settings={'min_weight_ratio': -1})
    k = len(X)
    Y, V = np.vstack(X), np.hstack(W)
    c.check_arr('loaded', s.samples, Y.shape, lambda i, j: Y[i, j])
    for t in range(c.int('steps', 1, 4)):
        op = c.option('op%d' % t, ['mask', 'index', 'zeros', 'thin', 'wthin', 'burn', 'burnfrac', 'derived', 'single', 'reweight'])
        n = s.numrows
        if n < 4:
            break
        rows = None
        if op == 'mask':
            b = c.array('b%d' % t, (n,), kind='b', gen=lambda r, d: r.rand(*d) < 0.7)
            c.assume(b.sum() > 1)
            s.filter(b)
            rows = np.flatnonzero(b)
        elif op == 'index':
            b = c.array('b%d' % t, (n,), kind='b', gen=lambda r, d: r.rand(*d) < 0.7)
            c.assume(b.sum() > 1)
            rows = np.flatnonzero(b)
            s.filter(rows if c.flag('list%d' % t) else list(rows))
        elif op == 'zeros':
            z = c.int('z%d' % t, 0, n - 1)
            s.weights[z] = 0
            s._weightsChanged()
            V = V.copy()
            V[z] = 0
            s.deleteZeros()
            rows = np.flatnonzero(V > 0)
        elif op == 'thin':
            f = c.int('f%d' % t, 1, 3)
            rows = s.thin_indices(f)
            if len(rows) < 2:
                break
            s.thin(f)
            Y, V = Y[rows], np.ones(len(rows))
            rows = None
        elif op == 'wthin':
            f = c.int('f%d' % t, 1, 5)
            sep = c.flag('separated%d' % t)
            if sep:
                s.chains = s.getSeparateChains()
            s.weighted_thin(f)
            if sep:
                c.check('still_separate', s.chains is not None and len(s.chains) == k)
                s.makeSingle()
            # each chain on its own
            kept, cnt = [], []
            for q in range(k):
                mine = np.flatnonzero(Y[:, 0] == q + 1)
                if len(mine):
                    u = V[mine].astype(int)
                    e = np.diff(np.concatenate([[0], np.cumsum(u) // f]))
                    if f >= u.max() and e[0] == 0:
                        e[0] = 1
                    kept.append(mine[e > 0])
                    cnt.append(e[e > 0])
            Y, V = Y[np.concatenate(kept)], np.concatenate(cnt).astype(float)
        elif op in ('burn', 'burnfrac'):
            f = c.int('f%d' % t, 1, max(1, n // 3)) if op == 'burn' else c.option('f%d' % t, [0.1, 0.3])
            m = f if f >= 1 else int(round(n * f))
            (s.removeBurn if op == 'burn' else s.removeBurnFraction)(f)
            rows = np.arange(n)[m:]
        elif op == 'derived':
            if not s.paramNames.parWithName('d%d' % t):
                s.addDerived(Y[:, 1] * 2, 'd%d' % t)
                Y = np.column_stack([Y, Y[:, 1] * 2])
        elif op == 'single':
            s.chains = s.getSeparateChains()
            s.makeSingle()
        elif op == 'reweight':
            a = c.array('a%d' % t, (n,), gen=lambda r, d: r.randint(0, 2, d) * np.log(2.0))
            s.reweightAddingLogLikes(-a)
            V = s.weights.copy()
            c.assume(np.allclose(V, np.round(V)))
            s.weights = np.round(V)
            V = s.weights.copy()
        if rows is not None:
            Y, V = Y[rows], V[rows]
        c.check('rows', s.samples.shape == Y.shape and np.allclose(s.samples, Y), op)
        c.check('weights', np.allclose(s.weights, V), op)
        back = s.getSeparateChains()
        c.check('chains', len(back) == k, op)
        for q in range(k):
            mine = Y[:, 0] == q + 1
            c.check('own_rows', back[q].samples.shape == Y[mine].shape and np.allclose(back[q].samples, Y[mine]), '%s chain %d' % (op, q))
            c.check('own_weights', np.allclose(back[q].weights, V[mine]), '%s chain %d' % (op, q))
            if like:
                c.check('own_likes', np.allclose(back[q].loglikes, s.loglikes[mine]), op)
            else:
                c.check_is('no_likes', back[q].loglikes, None)


def write_chain(f, w, L, X):
    with open(f, 'w') as o:
        for r in np.column_stack([w, L, X]):
            o.write(' '.join(repr(float(v)) for v in r) + '\n')


@contract('C06', 'load', [CH + 'Chains.loadChains', MC + 'readChains', CH + 'WeightedSamples.__init__', CH + 'WeightedSamples.setColData', CH + 'loadNumpyTxt',
                          CH + 'Chains.removeBurnFraction', CH + 'Chains.deleteFixedParams'], symbolic=False, runs=250)
def _(c):
    """files or arrays, rows or fraction of burn-in, per chain; parameters constant over all chains are dropped and recorded"""
    chm = c.module('getdist.chains')
    chm.print_load_details = False
    mc = c.module('getdist.mcsamples')
    k = c.int('k', 1, 4)
    p = c.int('p', 2, 4)
    X, W, L = [], [], []
    stuck = c.int('stuck', -1, k - 1)
    fixed = c.int('fixed', 0, p - 1)
    isfixed = c.flag('isfixed') and p > 2
    for q in range(k):
        n = c.int('n%d' % q, 3, 15)
        x = c.array('X%d' % q, (n, p), gen=lambda r, d: r.normal(0, 1, d))
        if isfixed:
            x[:, fixed] = 2.5
        if q == stuck:
            x[:, (fixed + 1) % p] = x[0, (fixed + 1) % p]      # does not vary in this chain
        X.append(x)
        W.append(c.array('w%d' % q, (n,), gen=lambda r, d: r.randint(1, 5, d).astype(float)))
        L.append(c.array('L%d' % q, (n,), gen=lambda r, d: r.rand(*d)))
    c.assume(stuck < 0 or k > 1)
    names = ['p%d' % i for i in range(p)]
    given = not c.flag('no names')
    ign = c.option('ign', [0, 1, 2, 0.3, 0.5, 0.25])
    src = c.option('src', ['files', 'arrays', 'list', 'vectors', 'one'])
    c.assume(k > 1 or src != 'arrays')
    c.assume(not (src in ('one', 'vectors') and (k > 1 or stuck >= 0)))
    d = tempfile.mkdtemp()
    try:
        kw = dict(names=names, ignore_rows=ign, settings={'min_weight_ratio': -1})
        if not given and src != 'files':
            kw.pop('names')
            names = ['param%d' % (i + 1) for i in range(p)]
        copy = lambda a: [x.copy() for x in a]
        if src == 'files':
            files = []
            for q in range(k):
                files.append('%s/r_%d.txt' % (d, q + 1))
                write_chain(files[-1], W[q], L[q], X[q])
            with open(d + '/r.paramnames', 'w') as o:
                o.write(''.join('%s\t%s\n' % (a, a) for a in names))
            empty = c.flag('empty')
            if empty:
                open(d + '/r_9.txt', 'w').close()
                files.append(d + '/r_9.txt')
            kw.pop('names')
            s = mc.MCSamples(d + '/r', **kw)
            c.check('weights_in_files', c.raises(ValueError, lambda: chm.Chains().loadChains('r', files, **{c.option('extra', ['weights', 'loglikes']): W})))
            s.readChains(files)
        elif src == 'one':
            s = mc.MCSamples(samples=X[0].copy(), weights=W[0].copy(), loglikes=L[0].copy(), **kw)
        elif src == 'vectors':
            s = mc.MCSamples(samples=[X[0][:, j].copy() for j in range(p)], weights=W[0].copy(), loglikes=L[0].copy(), **kw)
        elif src == 'list':
            s = mc.MCSamples(samples=copy(X), weights=copy(W), loglikes=copy(L), **kw)
        else:
            s = mc.MCSamples(**kw)
            s.readChains(copy(X), copy(W), copy(L))
    finally:
        shutil.rmtree(d)
    cut = [ign if ign >= 1 else int(round(len(x) * ign)) for x in X]
    Y = np.vstack([x[m:] for x, m in zip(X, cut)])
    gone = [j for j in range(p) if np.ptp(Y[:, j]) == 0]
    keep = [j for j in range(p) if j not in gone]
    c.assume(len(keep) and len(Y) > 1)
    c.check('names', s.paramNames.list() == [names[j] for j in keep], str(s.paramNames.list()))
    c.check('fixed', {a: v for a, v in s.ranges.fixedValueDict().items()} == {names[j]: Y[0, j] for j in gone}, str(s.ranges.fixedValueDict()))
    Y = Y[:, keep]
    V = np.hstack([x[m:] for x, m in zip(W, cut)])
    M = np.hstack([x[m:] for x, m in zip(L, cut)])
    c.check_arr('samples', s.samples, Y.shape, lambda i, j: Y[i, j])
    c.check_arr('weights', s.weights, V.shape, lambda i: V[i])
    c.check_arr('loglikes', s.loglikes, M.shape, lambda i: M[i])
    if src in ('files', 'list', 'arrays'):
        back = s.getSeparateChains()
        c.check('chains', [len(b.weights) for b in back] == [len(x) - m for x, m in zip(X, cut)])
        one = chm.Chains(names=names)
        one.loadChains('r', copy(X), weights=copy(W), loglikes=copy(L))
        if k > 1:
            apart = one.getSeparateChains()
            c.check('not combined', len(apart) == k and all(np.array_equal(y.samples, x) and np.array_equal(y.weights, w) for y, x, w in zip(apart, X, W)))


@contract('C06', 'numbers', [CH + 'loadNumpyTxt'], symbolic=False, runs=60)
def _(c):
    """a table of numbers is read as real numbers, row for row, after the rows to skip, with and without pandas"""
    chm = c.module('getdist.chains')
    n, p, skip = c.int('n', 1, 8), c.int('p', 1, 4), c.option('skip', [None, 0, 1, 2])
    x = c.array('x', (n, p), gen=lambda r, d: r.normal(0, 1, d))
    if c.flag('whole'):
        x = np.round(x * 10)
    with tempfile.TemporaryDirectory() as d:
        with open(d + '/t', 'w') as f:
            f.write(''.join('  '.join('%d' % v if v == int(v) and abs(v) < 100 else repr(float(v)) for v in row) + '\n' for row in x))
        old = chm.pandas
        try:
            if c.flag('no pandas'):
                chm.pandas = None
                chm._pandas_suggestion = False
            c.assume((skip or 0) < n)
            y = chm.loadNumpyTxt(d + '/t', skip) if skip is not None else chm.loadNumpyTxt(d + '/t')
        finally:
            chm.pandas = old
    c.check('real', y.dtype == np.float64)
    c.check('rows', y.shape == x[skip or 0:].shape and np.allclose(y, x[skip or 0:], rtol=1e-12, atol=0), lambda: '%s' % y)


@contract('C06', 'ignore_rows', [CH + 'WeightedSamples.__init__'], symbolic=False, runs=120)
def _(c):
    chm = c.module('getdist.chains')
    chm.print_load_details = False
    n = c.int('n', 4, 20)
    X = c.array('X', (n, 2), gen=lambda r, d: r.normal(0, 1, d))
    w = c.array('w', (n,), gen=lambda r, d: r.randint(1, 5, d).astype(float))
    L = c.array('L', (n,), gen=lambda r, d: r.rand(*d))
    ign = c.option('ign', [0, 1, 3, 2.0, 0.3, 0.5, 0.0])
    how = c.option('how', ['arrays', 'vectors', 'file', 'nochain'])
    m = int(ign) if ign >= 1 else int(round(n * ign))
    d = tempfile.mkdtemp()
    try:
        if how == 'arrays':
            s = chm.WeightedSamples(samples=X.copy(), weights=w.copy(), loglikes=L.copy(), ignore_rows=ign)
        elif how == 'vectors':
            s = chm.WeightedSamples(samples=[X[:, 0].copy(), X[:, 1].copy()], weights=w.copy(), loglikes=L.copy(), ignore_rows=ign)
        elif how == 'file':
            write_chain(d + '/a.txt', w, L, X)
            s = chm.WeightedSamples(d + '/a.txt', ignore_rows=ign)
        else:
            np.savetxt(d + '/a.txt', X, fmt='%.17g')
            s = chm.WeightedSamples(d + '/a.txt', ignore_rows=ign, files_are_chains=False)
    finally:
        shutil.rmtree(d)
    c.check_arr('samples', s.samples, (n - m, 2), lambda i, j: X[m + i, j])
    if how == 'nochain':
        c.check_is('likes', s.loglikes, None)
        c.check_arr('weights', s.weights, (n - m,), lambda i: 1)
    else:
        c.check_arr('likes', s.loglikes, (n - m,), lambda i: L[m + i])
        c.check_arr('weights', s.weights, (n - m,), lambda i: w[m + i])


@contract('C06', 'files', [CH + 'chainFiles', CH + 'hasChainFiles', CH + 'findChainFileRoot'], symbolic=False, runs=250)
def _(c):
    """exactly the files named root, separator, number, extension with an index allowed by the filters"""
    chm = c.module('getdist.chains')
    rng = c.rng
    d = tempfile.mkdtemp()
    try:
        roots = ['ab', 'ab_c', 'a.b', 'abx', 'ab+', 'b', 'ab_1']
        made = set()
        for t in range(c.int('nfiles', 1, 14)):
            r = c.option('r%d' % t, roots)
            num = c.option('i%d' % t, ['', '1', '2', '3', '10', '0', '01', '1a', 'x', '-1'])
            sp = c.option('s%d' % t, ['_', '.', ''])
            e = c.option('e%d' % t, ['.txt', '.txt', '.txt', '.dat', '.txt.bak', 'Xtxt', '.paramnames'])
            made.add(r + (sp + num if num else '') + e)
        for f in made:
            open(os.path.join(d, f), 'w').close()
        root = c.option('root', roots)
        sp = c.option('sep', ['_', '.'])
        ext = c.option('ext', ['.txt', '.dat'])
        first = c.option('first', [0, 0, 1, 2])
        last = c.option('last', [-1, -1, 2, 3, 10])
        exc = c.option('exc', [None, None, [1], [2, 10]])
        ind = c.option('ind', [None, None, [1, 2], [3, 10], [0]])
        exp = set()
        for f in made:
            if not (f.startswith(root) and f.endswith(ext)) or len(f) < len(root) + len(ext):
                continue
            mid = f[len(root):len(f) - len(ext)]
            if mid == '':
                ix = 0
            elif mid.startswith(sp) and mid[len(sp):].isdigit():
                ix = int(mid[len(sp):])
            else:
                continue
            if ix >= first and (last < 0 or ix <= last) and (exc is None or ix not in exc) and (ind is None or ix in ind):
                exp.add(f)
        how = c.option('how', ['abs', 'cwd'])
        old = os.getcwd()
        os.chdir(d)
        try:
            rt = root if how == 'cwd' else os.path.join(d, root)
            got = chm.chainFiles(rt, chain_indices=ind, ext=ext, separator=sp, first_chain=first, last_chain=last, chain_exclude=exc)
            c.check('paths', all(os.path.dirname(f) == os.path.dirname(rt) for f in got))
            c.check('files', sorted(os.path.basename(f) for f in got) == sorted(exp), '%s, expected %s' % (got, sorted(exp)))
            nums = [int(os.path.basename(f)[len(root):-len(ext)].strip('_.') or 0) for f in got]
            c.check('in order', nums == sorted(nums), got)
            has = any(f == root + '.txt' or f in [root + s_ + z + '.txt' for s_ in '_.' for z in ('0', '1', '01')] for f in made)
            c.check('has', bool(chm.hasChainFiles(rt)) == has)
        finally:
            os.chdir(old)
        os.makedirs(d + '/top/mid/low')
        sub = c.option('sub', ['', 'mid', 'mid/low'])
        open(os.path.join(d, 'top', sub, 'zz_1.txt'), 'w').close()
        os.makedirs(d + '/top/other')
        open(d + '/top/other/zzz_1.txt', 'w').close()
        c.check('find', os.path.normpath(chm.findChainFileRoot(d + '/top', 'zz') or '?') == os.path.normpath(os.path.join(d, 'top', sub, 'zz')))
        c.check_is('find_none', chm.findChainFileRoot(d + '/top', 'z'), None)
        if sub:
            c.check_is('find_shallow', chm.findChainFileRoot(d + '/top', 'zz', search_subdirectories=False), None)
        # directory as root (file names are just numbers)
        open(d + '/top/mid/1.txt', 'w').close()
        open(d + '/top/mid/2.txt', 'w').close()
        c.check('numbers', sorted(os.path.basename(f) for f in chm.chainFiles(d + '/top/mid/')) == ['1.txt', '2.txt'])
    finally:
        shutil.rmtree(d)


@contract('C06', 'append', [MC + 'getCombinedSamplesWithSamples'], symbolic=False, runs=80)
def _(c):
    """common parameters; rows of one then the other; relative weights as asked for"""
    chm = c.module('getdist.chains')
    chm.print_load_details = False
    M = c.module('getdist.mcsamples').MCSamples
    pool = ['a', 'b', 'c.d', 'c.e', 'omega']
    S = []
    for q in range(2):
        n = c.int('n%d' % q, 3, 12)
        nm = [a for a in pool if c.flag('has_%s%d' % (a, q))] + ['z']
        X = c.array('X%d' % q, (n, len(nm)), gen=lambda r, d: r.normal(0, 1, d))
        w = c.array('w%d' % q, (n,), gen=lambda r, d: r.randint(1, 5, d).astype(float))
        L = c.array('L%d' % q, (n,), gen=lambda r, d: r.rand(*d)) if c.flag('like%d' % q) else None
        S.append((nm, X, w, L, M(samples=X.copy(), weights=w.copy(), loglikes=None if L is None else L.copy(), names=nm, ignore_rows=0,
                                 settings={'min_weight_ratio': -1})))
    sw = c.option('sw', [None, (1, 1), (1, 3), (0.5, 2)])
    (n1, X1, w1, L1, s1), (n2, X2, w2, L2, s2) = S
    r = s1.getCombinedSamplesWithSamples(s2, sample_weights=sw) if sw != (1, 1) else s1.getCombinedSamplesWithSamples(s2)
    common = [a for a in n1 if a in n2]
    c.check('names', sorted(r.paramNames.list()) == sorted(common))
    Y = np.vstack([X1[:, [n1.index(a) for a in r.paramNames.list()]], X2[:, [n2.index(a) for a in r.paramNames.list()]]])
    c.check_arr('samples', r.samples, Y.shape, lambda i, j: Y[i, j])
    ratio = 1 if sw is None else w1.sum() / w2.sum() * sw[1] / sw[0]
    V = np.hstack([w1, w2 * ratio])
    c.check('weights', np.allclose(r.weights / r.weights[0], V / V[0]))
    if L1 is None or L2 is None:
        c.check_is('likes', r.loglikes, None)
    else:
        c.check_arr('likes', r.loglikes, (len(V),), lambda i: np.hstack([L1, L2])[i])
    c.check('inputs', np.array_equal(s1.weights, w1) and np.array_equal(s2.weights, w2) and np.array_equal(s1.samples, X1))
