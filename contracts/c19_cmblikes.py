"""C19: the CMB likelihood matches its definition"""
import contextlib
import io
import os
import tempfile
import numpy as np
from pyvc.api import contract, Skip
from pyvc.specs import LoopSpec, loopspec

D = 'CMBlikes:DatasetLikelihood.'
W = 'CMBlikes:BinWindows.'
A = 'CMBlikes:ClsArray.'


class Box:
    pass


def like(c, **kw):
    m = c.module('CMBlikes')
    d = c.partial(m.DatasetLikelihood)
    for k, v in kw.items():
        setattr(d, k, v)
    return d


def tri(k):
    return (k * k + k) / 2


@loopspec('CMBlikes', 'DatasetLikelihood.elements_to_matrix', 0)
class ToMatrix(LoopSpec):
    """after k rows the leading k x k block holds the first k(k+1)/2 elements; the rest is untouched"""
    proof_only = True

    def closed(self, loop, k):
        import z3
        X, f = loop.X, loop.m0

        def g(a, b):
            hi, lo = z3.If(a > b, a, b), z3.If(a > b, b, a)
            return z3.If(hi < k, X(tri(hi) + lo), f(a, b))
        return g

    def invariant(self, loop, st, k):
        import z3
        from pyvc import core
        M = st['M']
        if not hasattr(loop, 'm0'):
            loop.m0 = M._fn
            loop.X = st['X']._fn
        a, b = core.cur().index('a'), core.cur().index('b')
        n = M.axes[0].n
        return [('ix', core.lift(st['ix']) == tri(k)), ('M', z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n), M.elem(a, b) == self.closed(loop, k)(a, b)))]

    def havoc(self, loop, st):
        from pyvc import core
        loop.modifies = [st['M']]
        st['M']._fn = self.closed(loop, loop.k)
        return {'ix': core.SNum(tri(loop.k))}


@contract('C19', 'elements', [D + 'elements_to_matrix'])
def _(c):
    """the matrix made from a vector is symmetric and lists it row by row in its lower triangle, for any number of maps"""
    n = c.dim('n')
    d = like(c, nmaps=n)
    N = c.int('N', 1, 80, gen=lambda: int(n) * (int(n) + 1) // 2)
    c.assume(2 * N == n * n + n)
    X = c.array('X', (N,))
    M = c.fresh_copy(c.array('M', (n, n)))
    x0 = c.fresh_copy(X)
    d.elements_to_matrix(x0, M)
    i, j = c.int('i', 0, n - 1), c.int('j', 0, n - 1)
    c.assume(j <= i)
    at = lambda a, b: c.at(X, (a * a + a) // 2 + b)
    c.check_eq('lower', c.at(M, i, j), at(i, j))
    c.check_eq('upper', c.at(M, j, i), at(i, j))


@loopspec('CMBlikes', 'DatasetLikelihood.matrix_to_elements', 0)
class ToElements(LoopSpec):
    """after k rows elements 0..k(k+1)/2-1 hold the lower triangle of the first k rows; the rest is untouched"""
    proof_only = True

    def closed(self, loop, k):
        import z3
        from pyvc import core
        row = z3.Function('row', z3.IntSort(), z3.IntSort())

        def g(p):
            # row(p): the row that element p belongs to (exists and is unique for every p >= 0)
            core.cur().axiom(('row', p.get_id()), z3.Implies(p >= 0, z3.And(row(p) >= 0, tri(row(p)) <= p, p < tri(row(p) + 1))))
            return z3.If(p < tri(k), loop.M(row(p), p - tri(row(p))), loop.x0(p))
        return g

    def invariant(self, loop, st, k):
        import z3
        from pyvc import core
        X = st['X']
        if not hasattr(loop, 'M'):
            loop.M = st['M']._fn
            loop.x0 = X._fn
        p = core.cur().index('p')
        return [('ix', core.lift(st['ix']) == tri(k)), ('X', z3.Implies(z3.And(p >= 0, p < X.axes[0].n), X.elem(p) == self.closed(loop, k)(p)))]

    def havoc(self, loop, st):
        from pyvc import core
        loop.modifies = [st['X']]
        st['X']._fn = self.closed(loop, loop.k)
        return {'ix': core.SNum(tri(loop.k))}


@contract('C19', 'vector', [D + 'matrix_to_elements'])
def _(c):
    """the vector of a matrix lists its lower triangle row by row, for any number of maps"""
    n = c.dim('n')
    d = like(c, nmaps=n)
    N = c.int('N', 1, 80, gen=lambda: int(n) * (int(n) + 1) // 2)
    c.assume(2 * N == n * n + n)
    X = c.fresh_copy(c.array('X', (N,)))
    M = c.array('M', (n, n))
    m0 = c.fresh_copy(M)
    d.matrix_to_elements(m0, X)
    i, j = c.int('i', 0, n - 1), c.int('j', 0, n - 1)
    c.assume(j <= i)
    c.check_eq('element', c.at(X, (i * i + i) // 2 + j), c.at(M, i, j))
    c.check_eq('input', c.at(m0, i, j), c.at(M, i, j))


@contract('C19', 'both_ways', [D + 'elements_to_matrix', D + 'matrix_to_elements'], proof=False, note='entries arbitrary; number of maps 1 to 5')
def _(c):
    """the vector lists the lower triangle row by row; the matrix made from it is symmetric; both directions agree"""
    n = c.option('n', [1, 2, 3, 4, 5])
    d = like(c, nmaps=n)
    X = c.array('X', (n * (n + 1) // 2,))
    M = c.fresh_copy(c.array('M', (n, n)))
    x0 = c.fresh_copy(X)
    d.elements_to_matrix(x0, M)
    for i in range(n):
        for j in range(n):
            a, b = max(i, j), min(i, j)
            c.check_eq('matrix', c.at(M, i, j), c.at(X, a * (a + 1) // 2 + b))
    Y = c.fresh_copy(c.array('Y', (n * (n + 1) // 2,)))
    d.matrix_to_elements(M, Y)
    for i in range(n * (n + 1) // 2):
        c.check_eq('back', c.at(Y, i), c.at(X, i))
        c.check_eq('input', c.at(x0, i), c.at(X, i))


def spectra(c, nm, nl, theory):
    cls = np.empty((nm, nm), dtype=object)
    ins = {}
    for i in range(nm):
        for j in range(i + 1):
            b = Box()
            b.theory_ij = tuple(sorted((theory[i], theory[j])))
            ins[i, j] = c.array('cl%d%d' % (i, j), (nl,))
            b.CL = c.fresh_copy(ins[i, j])
            cls[i, j] = b
    return cls, ins


ORDERS = [([(0, 0)], [0]), ([(0, 0), (1, 0), (1, 1)], [0, 1, 2]), ([(1, 1), (0, 0), (1, 0)], [2, 0, 1]), ([(0, 0), (1, 1), (1, 0)], [0, -1, 0]), ([(1, 1)], [1]),
          ([(1, 0), (1, 0)], [2, -1])]


@contract('C19', 'bin', [W + 'bin'], note='any number of bins and multipoles, arbitrary windows and spectra; %d patterns of input and output order' % len(ORDERS))
def _(c):
    """band power of an output spectrum is the sum over its windows of window times input spectrum; other outputs stay 0"""
    m = c.module('CMBlikes')
    cin, cout = c.option('order', ORDERS)
    nb, nl = c.dim('nb'), c.dim('nl')
    cls, ins = spectra(c, 2, nl, [0, 1])
    w = m.BinWindows(2, nl + 1, nb, 3)
    B = c.array('B', (len(cin), nb, nl))
    w.binning_matrix = c.fresh_copy(B)
    w.cols_in = np.array(cin).T
    w.cols_out = np.array(cout)
    r = w.bin(cls)

    def want(b, o):
        return sum([c.sum(nl, lambda l, k=k: c.at(B, k, b, l) * c.at(ins[tuple(cin[k])], l)) for k in range(len(cin)) if cout[k] == o], 0)
    c.check('columns', c.length(r[0]) == 3 if c.concrete else r.axes[1].n == 3)
    for o in range(3):
        c.check_arr('band%d' % o, r[:, o], (nb,), lambda b, o=o: want(b, o))


@contract('C19', 'theory', [D + 'get_theory_map_cls', D + 'adapt_theory_for_maps', D + 'add_aberration'],
          note='any lmin, lmax, spectra, calibration and aberration; one T, E, B or P map with one of each other kind')
def _(c):
    """each map spectrum is the theory spectrum of its fields on lmin..lmax (0 if absent), with l dC/dl aberration and divided by calibration^2 unless it is lensing"""
    m = c.module('CMBlikes')
    fields = c.option('fields', [(0, 1), (1, 2), (3, 0), (3, 3), (2, 3)])
    lmin = c.int('lmin', 2, 8)
    n = c.dim('n', lo=3, small=(3, 4))
    extra = c.int('extra', 0, 5)
    cal = c.option('cal', ['none', 'unset', 'set'])
    ab = c.flag('aberration')
    coeff = c.real('coeff', pos=True)
    calv = c.real('calv', pos=True)
    total = lmin + n + extra
    maps, _ = spectra(c, 2, n, fields)
    have, cls = {}, np.empty((4, 4), dtype=object)
    absent = c.option('absent', ['none', 'cross', 'first'])
    for k, (i, j) in enumerate([(0, 0), (1, 0), (1, 1)]):
        t = maps[i, j].theory_ij
        if t in have or absent == 'cross' and k == 1 or absent == 'first' and k == 0:
            continue
        have[t] = c.array('th%d' % k, (total,))
        cls[t[1], t[0]] = c.fresh_copy(have[t])
    a = c.partial(m.ClsArray)
    a.field_names, a.cls_array, a.lmin, a.lmax = ['T', 'E', 'B', 'P'], cls, 0, total - 1
    d = like(c, nmaps_required=2, pcl_lmin=lmin, pcl_lmax=lmin + n - 1, map_cls=maps, aberration_coeff=coeff if ab else 0.0,
             calibration_param=None if cal == 'none' else 'cal')
    d.get_theory_map_cls(a, {'cal': calv} if cal == 'set' else {})
    for i, j in [(0, 0), (1, 0), (1, 1)]:
        t = maps[i, j].theory_ij
        lens = 3 in t

        def want(l, t=t, lens=lens):
            if t not in have:
                return 0
            L = lambda x: lmin + x
            th = lambda x: c.at(have[t], L(x))
            v = th(l)
            if ab and not lens:
                cl = lambda x: th(x) / (L(x) * (L(x) + 1))
                x = c.ite(l == 0, 1, c.ite(l == n - 1, n - 2, l))
                v = v + coeff * L(l) * L(l) * (L(l) + 1) * (cl(x + 1) - cl(x - 1)) / 2
            if cal == 'set' and not lens:
                v = v / calv ** 2
            return v
        c.check_arr('spectrum', maps[i, j].CL, (n,), want)
    for t in have:
        c.check_arr('theory unchanged', cls[t[1], t[0]], (total,), lambda l, t=t: c.at(have[t], l))


@contract('C19', 'one_map', [D + 'exact_chi_sq', D + 'transform'])
def _(c):
    """one map: exact form (2L+1) fsky (x - 1 - log x), HL form sign(x-1) sqrt(2(x-log x-1)) Cf with x = Chat/C; the data are not changed"""
    L = c.int('L', 2, 500)
    fsky, C, H, F = (c.real(x, pos=True) for x in ('fsky', 'C', 'Chat', 'Cfhalf'))
    d = like(c, nmaps=1, fsky=fsky)
    x = H / C
    Cm, Hm, Fm = _one(c, C), _one(c, H), _one(c, F)
    c.check_eq('exact', d.exact_chi_sq(Cm, Hm, L), (2 * L + 1) * fsky * (x - 1 - c.log(x)))
    d.transform(Cm, Hm, Fm)
    g = x - c.log(x) - 1
    g = c.ite(g > 0, g, 0)
    c.check_eq('HL', c.at(Cm, 0, 0), c.ite(x > 1, 1, c.ite(x < 1, -1, 0)) * c.sqrt(2 * g) * F ** 2)
    c.check_eq('Chat', c.at(Hm, 0, 0), H)
    c.check_eq('Cfhalf', c.at(Fm, 0, 0), F)


def _one(c, v):
    if c.concrete:
        return np.array([[v]])
    from pyvc import arr, core
    t = core.lift(v)
    a = c.fresh_copy(c.array('m!%d' % t.get_id(), (1, 1)))
    a[0, 0] = v
    return a


@contract('C19', 'gaussian', [D + 'chi_squared', D + 'get_binned_map_cls', D + 'get_theory_map_cls', D + 'elements_to_matrix', D + 'matrix_to_elements', W + 'bin'], proof=False,
          note='arbitrary theory, windows, band powers, noise and inverse covariance; 1 or 2 maps, 1 or 2 bins, 2 multipoles, four choices of used spectra')
def _(c):
    """gaussian chi-squared is x.covinv.x for x = binned theory (+ noise) - band powers over the used spectra in covariance order, repeatably"""
    m = c.module('CMBlikes')
    nm, used = c.option('maps', [(1, [0]), (2, [0, 2]), (2, [2, 0, 1]), (2, [1])])
    nb = c.option('nb', [1, 2])
    noise, corr = c.flag('noise'), c.flag('correction')
    ncl, nl = nm * (nm + 1) // 2, 2
    pairs = [(i, j) for i in range(nm) for j in range(i + 1)]
    maps, _ = spectra(c, nm, nl, [0, 1])
    th = {p: c.array('th%d%d' % p, (nl + 2,)) for p in pairs}
    cls = np.empty((4, 4), dtype=object)
    for p in pairs:
        cls[p] = c.fresh_copy(th[p])
    a = c.partial(m.ClsArray)
    a.field_names, a.cls_array = ['T', 'E', 'B', 'P'], cls

    def window(name):
        w = m.BinWindows(2, 3, nb, ncl)
        B = c.array(name, (ncl, nb, nl))
        w.binning_matrix = c.fresh_copy(B)
        w.cols_in, w.cols_out = np.array(pairs).T, np.arange(ncl)
        return w, lambda k, b: sum([c.at(B, k, b, l) * c.at(th[pairs[k]], l + 2) for l in range(nl)], 0)
    w, wv = window('B')
    lc, lv = window('LC') if corr else (None, lambda k, b: 0)
    fid = c.array('fid', (ncl, nb))
    hat = c.array('hat', (ncl, nb))
    nz = c.array('nz', (ncl, nb))
    N = nb * len(used)
    Q = c.array('Q', (N, N))
    d = like(c, nmaps=nm, nmaps_required=nm, nbins_used=nb, ncl=ncl, ncl_used=len(used), cl_used_index=np.array(used), binned=True, bin_min=0, like_approx='gaussian',
             pcl_lmin=2, pcl_lmax=3, map_cls=maps, aberration_coeff=0.0, calibration_param=None, log_calibration_prior=-1, bins=w, linear_correction=lc,
             fid_correction=c.fresh_copy(fid), covinv=c.fresh_copy(Q), cl_noise=c.fresh_copy(nz) if noise else None)
    d.bandpower_matrix = c.fresh_copy(c.array('bm', (nb, nm, nm)))
    d.noise_matrix = c.fresh_copy(c.array('nmx', (nb, nm, nm)))
    for b in range(nb):
        d.elements_to_matrix(hat[:, b], d.bandpower_matrix[b, :, :])
        d.elements_to_matrix(nz[:, b], d.noise_matrix[b, :, :])
    x = []
    for b in range(nb):
        for k in used:
            v = wv(k, b) - c.at(hat, k, b)
            if corr:
                v = v + lv(k, b) - c.at(fid, k, b)
            if noise:
                v = v + c.at(nz, k, b)
            x.append(v)
    want = sum([x[i] * c.at(Q, i, j) * x[j] for i in range(N) for j in range(N)], 0)
    c.check_eq('chi2', d.chi_squared(a), want, scale=1e-3)
    c.check_eq('again', d.chi_squared(a), want, scale=1e-3)


def spd(r, n, scale=1.0):
    A = r.normal(0, 1, (n, n))
    return scale * (A.dot(A.T) / n + np.eye(n))


def setup(c, r):
    """maps with their fields, as used in the likelihood, as required, and their names"""
    s = Box()
    s.style = c.option('style', ['fields', 'fields', 'maps'])
    if s.style == 'fields':
        s.names = ['T', 'E', 'B', 'P']
        s.field = dict(zip(s.names, s.names))
        used = c._in('use', lambda: tuple(x for x in s.names if c.rng.random() < .5) or ('P',))
        s.kind = 'fields_use'
        s.ini = {'fields_use': ' '.join(c._in('use order', lambda: tuple(c.rng.sample(used, len(used)))))}
        extra = c._in('extra', lambda: tuple(x for x in s.names if c.rng.random() < .3))
        if extra:
            s.ini['fields_required'] = ' '.join(extra)
        s.pair = lambda a, b: a + b
    else:
        n = c.int('nmaps', 1, 4)
        s.names = ['M%d' % i for i in range(n)] if c.flag('numbered') else ['zz', 'Aa1', 'm_2', 'B9'][:n]
        fl = c._in('map fields', lambda: tuple(c.rng.choice('TEBP') for _ in s.names))
        s.field = dict(zip(s.names, fl))
        s.ini = {'map_names': ' '.join(s.names), 'map_fields': ' '.join(fl)}
        how = c.option('how', ['all', 'maps_use', 'fields_use', 'both'])
        used = tuple(s.names)
        pick = c._in('use', lambda: tuple(x for x in s.names if c.rng.random() < .5) or (s.names[-1],))
        if how in ('maps_use', 'both'):
            used = pick
            s.ini['maps_use'] = ' '.join(c._in('use order', lambda: tuple(c.rng.sample(pick, len(pick)))))
        if how in ('fields_use', 'both'):
            fu = sorted(set(s.field[x] for x in pick))
            s.ini['fields_use'] = ' '.join(fu)
            if how == 'fields_use':
                used = tuple(x for x in s.names if s.field[x] in fu)
        extra = c._in('extra', lambda: tuple(x for x in s.names if c.rng.random() < .3))
        if extra:
            s.ini['maps_required'] = ' '.join(extra)
        s.pair = lambda a, b: a + 'x' + b
    s.used = [x for x in s.names if x in used]
    s.required = [x for x in s.names if x in used or x in extra]
    s.pairs = [(a, b) for i, a in enumerate(s.used) for b in s.used[:i + 1]]
    s.reqpairs = [(a, b) for i, a in enumerate(s.required) for b in s.required[:i + 1]]
    s.allpairs = [(a, b) for i, a in enumerate(s.names) for b in s.names[:i + 1]]
    return s


def key(a, b):
    return tuple(sorted((a, b)))


def order(c, tag, pairs):
    """the pairs in some order, each written either way round"""
    return c._in(tag, lambda: tuple((a, b) if c.rng.random() < .5 else (b, a) for a, b in c.rng.sample(pairs, len(pairs))))


def g(x):
    return np.sign(x - 1) * np.sqrt(2 * np.maximum(0, x - np.log(x) - 1))


def power(M, f):
    w, v = np.linalg.eigh(M)
    return (v * f(w)).dot(v.T)


@contract('C19', 'dataset', [D + x for x in ('readIni', 'loadDataset', 'ReadClArr', 'readBinWindows', 'ReadCovmat', 'GetColsFromOrder', 'UseString_to_cols', 'UseString_to_Cl_i_j',
                                             'PairStringToUsedMapIndices', 'PairStringToMapIndices', 'init_map_cls', 'MapPair_to_Theory_i_j', 'Cl_i_j_name', 'chi_squared', 'transform',
                                             'exact_chi_sq', 'get_binned_map_cls', 'get_full_bandpower_column')] +
          [A + 'loadFromFile', A + 'get', W + 'bin', 'CMBlikes:lastTopComment', 'CMBlikes:readWithHeader'], symbolic=False, runs=500)
def _(c):
    """chi-squared of a dataset written to files is its defining form, whatever the order, orientation and selection of maps, spectra and bins"""
    m = c.module('CMBlikes')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    s = setup(c, r)
    approx = c.option('approx', ['gaussian', 'gaussian', 'HL', 'exact'])
    binned = approx != 'exact'
    if not binned and len(s.required) != len(s.used):
        raise Skip
    lmin = c.int('lmin', 2, 5)
    nl = c.int('nl', 3, 6)
    ls = list(range(lmin, lmin + nl))
    nbins = c.int('nbins', 1, 4) if binned else nl
    if binned:
        lo = c.int('use_min', 1, nbins)
        hi = c.int('use_max', lo, nbins)
        bins = list(range(lo, hi + 1))
    else:
        lo = c.int('use_min', lmin, lmin + nl - 1)
        hi = c.int('use_max', lo, lmin + nl - 1)
        bins = list(range(lo, hi + 1))
    allbins = list(range(1, nbins + 1)) if binned else ls
    nall = len(s.names)
    with tempfile.TemporaryDirectory() as tmp:
        put = lambda n, t: open(os.path.join(tmp, n), 'w').write(t)
        ini = dict(s.ini, like_approx=approx, cl_lmin=lmin, cl_lmax=lmin + nl - 1)
        if binned:
            ini['nbins'] = nbins
        else:
            ini['binned'] = 'F'
        if lo != allbins[0] or c.flag('say min'):
            ini['use_min'] = lo
        if hi != allbins[-1] or c.flag('say max'):
            ini['use_max'] = hi

        def spectrum_file(stem, scale):
            cols = order(c, stem + ' cols', s.allpairs)
            mats = {b: spd(r, nall, scale) for b in allbins}
            rows = [[b] + [mats[b][s.names.index(x), s.names.index(y)] for x, y in cols] for b in allbins]
            names = ' '.join(s.pair(x, y) for x, y in cols)
            body = ''.join(' '.join(['%d' % q[0]] + ['%.17g' % v for v in q[1:]]) + '\n' for q in rows)
            if c.flag(stem + ' header'):
                put(stem + '.dat', '# made up\n#  L ' + names + '\n' + body)
            else:
                ini[stem + '_order'] = names
                put(stem + '.dat', body)
            ini[stem + '_file'] = stem + '.dat'
            sub = [s.names.index(x) for x in s.used]
            return {b: mats[b][np.ix_(sub, sub)] for b in allbins}, (cols, rows)
        hat, raw = spectrum_file('cl_hat', 1.0)
        includes = c.flag('includes noise')
        if includes or c.flag('says not'):
            ini['cl_hat_includes_noise'] = 'T' if includes else 'F'
        noise = None
        if approx != 'gaussian' or includes:
            noise, _ = spectrum_file('cl_noise', 0.3)
        if approx == 'HL':
            fid, _ = spectrum_file('cl_fiducial', 1.0)
            fidn = c.flag('fid noise')
            ini['cl_fiducial_includes_noise'] = 'T' if fidn else 'F'
        # theory
        fields = sorted(set(s.field[x] for x in s.required))
        theory = {}
        ltop = lmin + nl - 1 + c.int('beyond', 0, 3)
        tl = list(range(2, ltop + 1))
        mats = {l: spd(r, 4, 2.0) for l in tl}
        missing = c._in('missing', lambda: tuple(p for p in [('B', 'T'), ('B', 'E'), ('P', 'T'), ('P', 'E')] if c.rng.random() < .3)) if approx == 'gaussian' else ()
        tcols = [p for p in order(c, 'theory cols', [(a, b) for i, a in enumerate('TEBP') for b in 'TEBP'[:i + 1]]) if tuple(sorted(p)) not in missing]
        put('theory.dat', '# L ' + ' '.join(a + b for a, b in tcols) + '\n' + ''.join(
            ' '.join(['%d' % l] + ['%.17g' % mats[l]['TEBP'.index(a), 'TEBP'.index(b)] for a, b in tcols]) + '\n' for l in tl))

        def th(a, b, l):
            f, h = s.field[a], s.field[b]
            if tuple(sorted((f, h))) in missing:
                return 0.0
            return mats[l]['TEBP'.index(f), 'TEBP'.index(h)]

        def windows(stem, outs):
            """windows from (in pair) to (out pair)"""
            ini[stem + '_in_order'] = ' '.join(s.pair(*i) for i, o in outs)
            if any(i != o for i, o in outs) or c.flag(stem + ' say out'):
                ini[stem + '_out_order'] = ' '.join(s.pair(*o) for i, o in outs)
            ini[stem + '_files'] = stem + '/w%u.dat'
            os.mkdir(os.path.join(tmp, stem))
            val = {}
            for b in allbins:
                val[b] = r.uniform(0.1, 1, (len(ls), len(outs))) / len(ls)
                put(stem + '/w%u.dat' % b, wtext(val[b]))
            return val
        beyond = c.int('window beyond', 0, 2)

        def wtext(v):
            # multipoles outside the range used do not count
            rows = [['%d' % l] + ['%.17g' % x for x in v[k]] for k, l in enumerate(ls)]
            out = lambda l: ['%d' % l] + ['%.17g' % x for x in r.uniform(0, 1, v.shape[1])]
            rows = [out(l) for l in range(max(lmin - beyond, 0), lmin)] + rows + [out(ls[-1] + 1 + k) for k in range(beyond)]
            return ''.join(' '.join(q) + '\n' for q in rows)
        if binned:
            same = approx == 'HL'
            outs = [(p, p) for p in order(c, 'win', s.allpairs)]
            win = windows('bin_window', outs)
            if same:
                # one window for all spectra, so that the binned theory is positive definite
                for b in allbins:
                    win[b][:] = win[b][:, :1]
                    put('bin_window/w%u.dat' % b, wtext(win[b]))
            correct = approx == 'gaussian' and c.flag('correction')
            if correct:
                k = c.int('nlin', 1, 3)
                lin = c._in('lin', lambda: tuple((c.rng.choice(s.reqpairs), c.rng.choice(s.pairs)) for _ in range(k)))
                lwin = windows('linear_correction_bin_window', list(lin))
                lfid, _ = spectrum_file('linear_correction_fiducial', 0.1)
            covcl = order(c, 'cov', s.allpairs)
            covcl = covcl[:c.int('ncov', 1, len(covcl))]
            if not any(a in s.used and b in s.used for a, b in covcl):
                raise Skip
            nc = len(covcl) * nbins
            cov = spd(r, nc, 0.1)
            scale = c.option('scale', [None, 1.0, 2.5])
            ini['covmat_cl'] = ' '.join(s.pair(*p) for p in covcl)
            ini['covmat_fiducial'] = 'cov.dat'
            if scale:
                ini['covmat_scale'] = scale
            np.savetxt(os.path.join(tmp, 'cov.dat'), cov, fmt='%.17g')
        else:
            ini['fullsky_exact_fksy'] = 0.7
        calib = c.flag('calibration')
        calv = 1.0
        params = {}
        prior = None
        if calib:
            put('cal.paramnames', 'calX  c_X\nother o\n')
            if c.flag('nuisance'):
                ini['nuisance_params'] = 'cal.paramnames'
                if c.option('named', [True, True, True, False]):
                    ini['calibration_paramname'] = 'calX'
                else:
                    calib = False
            else:
                ini['calibration_param'] = 'cal.paramnames'
            calv = c.real('calv', 0.8, 1.2)
            params = {'calX': calv, 'other': 3}
            if not calib:
                calv = 1.0
            if calib and c.flag('log prior'):
                prior = 0.02
                ini['log_calibration_prior'] = prior
        put('x.dataset', ''.join('%s = %s\n' % kv for kv in ini.items()))
        with contextlib.redirect_stdout(io.StringIO()):
            d = m.DatasetLikelihood(os.path.join(tmp, 'x.dataset'))
        cls = m.ClsArray(os.path.join(tmp, 'theory.dat'))
    # oracle

    def spec(a, b):
        v = np.array([th(a, b, l) for l in ls])
        return v if 'P' in (s.field[a], s.field[b]) else v / calv ** 2

    n = len(s.used)

    def matrix(b):
        C = np.zeros((n, n))
        if not binned:
            for i, x in enumerate(s.used):
                for j, y in enumerate(s.used):
                    C[i, j] = spec(x, y)[b - lmin]
            return C
        for k, (i, o) in enumerate(outs):
            if o[0] in s.used and o[1] in s.used:
                x, y = s.used.index(o[0]), s.used.index(o[1])
                C[x, y] += win[b][:, k].dot(spec(*i))
                if x != y:
                    C[y, x] = C[x, y]
        if correct:
            for k, (i, o) in enumerate(lin):
                x, y = s.used.index(o[0]), s.used.index(o[1])
                v = lwin[b][:, k].dot(spec(*i))
                C[x, y] += v
                if x != y:
                    C[y, x] += v
            C -= lfid[b]
        return C
    chi = 0.0
    X = []
    theory_rows = []
    for b in bins:
        C = matrix(b)
        theory_rows.append([C[s.used.index(x), s.used.index(y)] for x, y in s.pairs])
        H = hat[b].copy()
        if approx == 'gaussian':
            R = C - (H - noise[b] if includes else H)
        else:
            H = H if includes else H + noise[b]
            C = C + noise[b]
            if approx == 'exact':
                M = np.linalg.solve(C, H)
                chi += (2 * b + 1) * 0.7 * (np.trace(M) - n - np.log(np.linalg.det(M)))
                continue
            F = fid[b] if fidn else fid[b] + noise[b]
            if np.linalg.eigvalsh(C)[0] <= 0:
                raise Skip
            ch = power(C, lambda w: w ** -.5)
            fh = power(F, np.sqrt)
            R = fh.dot(power(ch.dot(H).dot(ch), g)).dot(fh)
        X += [R[s.used.index(x), s.used.index(y)] for x, y in covcl if x in s.used and y in s.used]
    if binned:
        sel = [(b - 1) * len(covcl) + k for b in bins for k, (x, y) in enumerate(covcl) if x in s.used and y in s.used]
        Q = cov[np.ix_(sel, sel)] * (scale or 1.0)
        chi = np.array(X).dot(np.linalg.solve(Q, np.array(X)))
    if prior:
        chi += (np.log(calv) / prior) ** 2
    got = d.chi_squared(cls, params)
    c.check_eq('chi2', got, chi, scale=1e-4)
    c.check('nonnegative', got >= -1e-6, got)
    c.check_eq('again', d.chi_squared(cls, params), got)
    if binned:
        v, bt = d.chi_squared(cls, params, return_binned_theory=True)
        c.check_eq('with theory', v, got)
        c.check('binned theory', np.allclose(bt, np.array(theory_rows), rtol=1e-9, atol=1e-9))
        c.check('binned again', np.allclose(d.get_binned_theory(cls, params), np.array(theory_rows), rtol=1e-9, atol=1e-9))
    for (x, y), col in zip(raw[0], range(1, 99)):
        c.check('column', np.allclose(d.get_full_bandpower_column(s.pair(x, y)), [q[col] for q in raw[1]]))
    # at the data themselves
    if binned and approx == 'gaussian' and not correct:
        d.bandpower_matrix = np.array([matrix(b) for b in bins])
        c.check('zero at the data', abs(d.chi_squared(cls, params) - (0 if not prior else (np.log(calv) / prior) ** 2)) < 1e-8)


@contract('C19', 'cls_file', [A + 'loadFromFile', A + 'add_from_file', A + 'get', A + '__init__', 'CMBlikes:lastTopComment', 'CMBlikes:readTextCommentColumns'], symbolic=False, runs=200)
def _(c):
    """a column XY of a spectrum file is the spectrum of fields X and Y by multipole, whatever the column order; a second file only adds"""
    m = c.module('CMBlikes')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    fields = list(c.option('fields', [('T', 'E', 'B', 'P'), ('T', 'E'), ('T', 'E', 'B', 'P', 'W'), ('E', 'T', 'P')]))
    pairs = [(a, b) for i, a in enumerate(fields) for b in fields[:i + 1]]
    cols = order(c, 'cols', pairs)[:c.int('n', 1, len(pairs))]
    cols2 = order(c, 'cols2', pairs)[:c.int('n2', 1, len(pairs))]
    with tempfile.TemporaryDirectory() as d:
        def write(fn, cs, lo, hi, head):
            v = r.normal(0, 1, (hi - lo + 1, len(cs)))
            at = c.int('L col ' + fn, 0, len(cs))
            names = [a + b for a, b in cs]
            names.insert(at, 'L')
            with open(os.path.join(d, fn), 'w') as f:
                if head:
                    f.write('# a comment\n\n# %s\n' % ' '.join(names))
                for l in range(lo, hi + 1):
                    row = ['%.17g' % x for x in v[l - lo]]
                    row.insert(at, '%d' % l)
                    f.write(' '.join(row) + '\n')
            return v, names
        lo = c.int('lmin', 0, 4)
        hi = lo + c.int('nl', 1, 5)
        lo2 = c.int('lmin2', 0, 4)
        hi2 = lo2 + c.int('nl2', 1, 8)
        head = c.flag('header')
        v, names = write('a', cols, lo, hi, head)
        v2, _ = write('b', cols2, lo2, hi2, True)
        scale = c.option('rescale', [None, 2.5])
        fn = os.path.join(d, 'a')
        a = m.ClsArray(fn, cols=None if head else (names if c.flag('list') else ' '.join(names)), field_names=list(fields), rescale=scale)
        if head:
            pick = c._in('pick', lambda: tuple(c.rng.sample(names, c.rng.randint(1, len(names)))))
            got = np.atleast_2d(m.readTextCommentColumns(fn, list(pick)))
            for p, x in zip(pick, got):
                c.check('named column', np.array_equal(x, np.arange(lo, hi + 1) if p == 'L' else v[:, [q + w for q, w in cols].index(p)]))
        with contextlib.redirect_stdout(io.StringIO()):
            a.add_from_file(os.path.join(d, 'b'))
    c.check('range', (a.lmin, a.lmax) == (lo, hi))
    want = {}
    for k, (x, y) in enumerate(cols2):
        z = np.zeros(hi + 1)
        for l in range(lo2, min(hi, hi2) + 1):
            z[l] = v2[l - lo2, k]
        want[key(x, y)] = z
    for k, (x, y) in enumerate(cols):
        z = np.zeros(hi + 1)
        z[lo:] = v[:, k] * (scale or 1)
        want[key(x, y)] = z
    for i, x in enumerate(fields):
        for j, y in enumerate(fields):
            got = a.get((i, j))
            w = want.get(key(x, y))
            c.check('spectrum', (got is None) == (w is None) and (w is None or len(got) == len(w) and np.allclose(got, w, rtol=1e-12)), (x, y))


@contract('C19', 'written', [W + 'write', D + 'write_likelihood_data', D + 'readBinWindows'], symbolic=False, runs=60)
def _(c):
    """windows written are read back as they were; the written likelihood data have one labelled column for each spectrum and one line for each multipole"""
    m = c.module('CMBlikes')
    ini = c.module('getdist.inifile')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    names = ['T', 'E', 'B', 'P'][:c.int('n', 1, 4)]
    n = len(names)
    pairs = [(a, b) for i, a in enumerate(names) for b in names[:i + 1]]
    lmin, nl, nb = c.int('lmin', 2, 30), c.int('nl', 2, 6), c.int('nb', 1, 3)
    ix = list(range(n))
    d = like(c, nmaps=n, nmaps_required=n, map_names=names, field_names=['T', 'E', 'B', 'P'], has_map_names=0, map_separator='x', map_used_index=ix, map_required_index=ix,
             required_order=ix, map_fields=ix, used_map_order=names, pcl_lmin=lmin, pcl_lmax=lmin + nl - 1, nbins_used=nb, bin_min=0, ncl=len(pairs))
    w = m.BinWindows(lmin, lmin + nl - 1, nb, len(pairs))
    io_ = order(c, 'order', pairs)[:c.int('k', 1, len(pairs))]
    text = ' '.join(a + b for a, b in io_)
    w.cols_in = d.UseString_to_Cl_i_j(text, ix)
    w.cols_out = d.UseString_to_cols(text)
    w.binning_matrix = r.normal(0, 1, (len(io_), nb, nl))
    with tempfile.TemporaryDirectory() as t:
        root = os.path.join(t, 'x')
        w.write(root, '_lens')
        w.write(root, '_lens')
        f = ini.IniFile()
        f.params.update({'q_in_order': text, 'q_files': root + '_lens_window/window%u.dat'})
        back = d.readBinWindows(f, 'q')
        c.check('windows', np.allclose(back.binning_matrix, w.binning_matrix, rtol=1e-7, atol=1e-8))
        c.check('order', np.array_equal(back.cols_in, w.cols_in) and np.array_equal(back.cols_out, w.cols_out))
        if n > 1 and any(names[-1] in p for p in io_):
            # the same order with a map that is used but not required
            d.map_required_index = ix[:-1] + [-1]
            c.check('not required', c.raises((Exception,), lambda: d.readBinWindows(f, 'q')))
            d.map_required_index = ix
        fg = {p: r.normal(0, 1, nl) for p in [(i, j) for i in range(n) for j in range(i + 1)]}

        def foreground(cls, params):
            for p in fg:
                cls[p].CL[:] = fg[p] * params['amp']
        d.add_foregrounds = foreground
        d.write_likelihood_data(os.path.join(t, 'l.dat'), {'amp': 2.0})
        head, dat = m.readWithHeader(os.path.join(t, 'l.dat'))
    dat = np.atleast_2d(dat)
    c.check('columns', head == ['L'] + [names[i] + names[j] for i, j in fg], head)
    c.check('multipoles', np.array_equal(dat[:, 0], np.arange(lmin, lmin + nl)))
    for k, p in enumerate(fg):
        c.check('values', np.allclose(dat[:, k + 1], 2 * fg[p], rtol=1e-7, atol=1e-8))


@contract('C19', 'camb', [A + '__init__', A + 'get'], symbolic=False, runs=100)
def _(c):
    """spectra from a CAMB result (a stand-in with its interface) are the total spectra TT, EE, BB, TE in muK^2 and the lensing potential"""
    m = c.module('CMBlikes')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    top = c.int('top', 4, 30)

    class Results(object):
        def _lmax_setting(self, lmax=None, unlensed=False):
            return min(lmax or top, top)

        def get_total_cls(self, lmax=None, CMB_unit=None, raw_cl=False):
            lmax = self._lmax_setting(lmax)
            return tot[:lmax + 1] * (1 if CMB_unit == 'muK' else 1e-12)

        def get_lens_potential_cls(self, lmax=None, CMB_unit=None, raw_cl=False):
            return phi[:self._lmax_setting(lmax) + 1].copy()
    tot, phi = r.normal(0, 1, (top + 1, 4)), r.normal(0, 1, (top + 1, 3))
    lmax = c.option('lmax', [None, 3, top - 1, top])
    scale = c.option('rescale', [None, 2.5])
    a = m.ClsArray(camb_results=Results(), lmax=lmax, rescale=scale)
    n = min(lmax or top, top)
    k = scale or 1
    want = {(0, 0): tot[:n + 1, 0], (1, 1): tot[:n + 1, 1], (2, 2): tot[:n + 1, 2], (1, 0): tot[:n + 1, 3], (3, 3): phi[:n + 1, 0]}
    c.check('range', (a.lmin, a.lmax) == (2, n))
    for i in range(4):
        for j in range(4):
            w = want.get((max(i, j), min(i, j)))
            got = a.get((i, j))
            c.check('spectrum', (got is None) == (w is None) and (w is None or np.array_equal(got, w * k)), (i, j))
