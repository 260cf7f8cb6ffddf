"""C13: parameter ranges mean what was set and round-trip through files"""
import math
import os
import tempfile
import numpy as np
from pyvc.api import contract
from contracts.c09_kde import mc

B = 'getdist.parampriors:ParamBounds.'
M = 'getdist.mcsamples:MCSamples.'


def fixed_spec(c, b, n, low, up):
    f = b.fixedValue(n)
    fd = b.fixedValueDict()
    if n in low and n in up:
        if f is None:
            c.check('not_fixed', c.Not(low[n] == up[n]))
            c.check('not_in_dict', n not in fd)
        else:
            c.check('is_fixed', low[n] == up[n])
            c.check_eq('fixed', f, low[n])
            c.check('in_dict', n in fd)
            c.check_eq('dict_value', fd[n], f)
    else:
        c.check_is('free', f, None)
        c.check('free_dict', n not in fd)


def limits_spec(c, b, n, low, up):
    for tag, want, got in (('lower', low, b.getLower(n)), ('upper', up, b.getUpper(n))):
        if n in want:
            c.check(tag + '_set', got is not None)
            c.check_eq(tag, got, want[n])
        else:
            c.check_is(tag + '_absent', got, None)


def operate(c, b, name, low, up, step=''):
    op = c.option('op' + step, ['both', 'lower', 'upper', 'fixed', 'free'])
    a, d = c.real('a' + step), c.real('b' + step)
    if op == 'fixed':
        b.setFixed(name, a)
        low[name] = up[name] = a
        return
    blank, blank_up = c.option('blank' + step, [('N', 'N'), (None, None), (-np.inf, np.inf)]) if op != 'both' else (None, None)
    b.setRange(name, [a if op in ('both', 'lower') else blank, d if op in ('both', 'upper') else blank_up])
    if op in ('both', 'lower'):
        low[name] = a
    if op in ('both', 'upper'):
        up[name] = d


@contract('C13', 'set_get', [B + 'setRange', B + 'setFixed', B + 'getLower', B + 'getUpper', B + 'fixedValue', B + 'fixedValueDict'], bounded=False,
          note='induction step from an arbitrary state, so any history; names are parametric (two names and an unset one)')
def _(c):
    """one setting, from an arbitrary state: the limits of that name become those given, all others stay"""
    b = c.module('getdist.parampriors').ParamBounds()
    low, up, order = {}, {}, []
    st = c.option('state', [0, 1, 2, 3])
    if st & 1:
        low['x'] = c.real('x_lower')
    if st & 2:
        up['x'] = c.real('x_upper')
    low['y'] = c.real('y_lower')
    up['y'] = c.real('y_upper')
    b.names = (['x'] if st else []) + ['y']
    b.lower, b.upper = dict(low), dict(up)
    operate(c, b, 'x', low, up)
    c.check('names', list(b.names) == (['x', 'y'] if st else ['y', 'x']))
    for n in ('x', 'y', 'z'):
        limits_spec(c, b, n, low, up)
    fixed_spec(c, b, c.option('which', ['x', 'y', 'z']), low, up)


@contract('C13', 'histories', [B + 'setRange', B + 'setFixed', B + 'getLower', B + 'getUpper', B + 'fixedValue', B + 'fixedValueDict'], symbolic=False, runs=300)
def _(c):
    """after any settings the limits of every name are the last ones given for it, and nothing else"""
    b = c.module('getdist.parampriors').ParamBounds()
    low, up, order = {}, {}, []
    for step in range(c.int('steps', 1, 5)):
        name = c.option('name%d' % step, ['x', 'y'])
        operate(c, b, name, low, up, str(step))
        if name not in order:
            order.append(name)
    c.check('names', list(b.names) == order)
    for n in ('x', 'y', 'z'):
        limits_spec(c, b, n, low, up)
        fixed_spec(c, b, n, low, up)


def draw(c, hi=5):
    n = c.int('n', 0, hi)
    out = {}
    for i in range(n):
        name = c.option('name%d' % i, ['a', 'x_%d', 'omegabh2_%d', 'a_very_long_parameter_name_indeed_%d', 'N%d', 'p%d'])
        name = name % i if '%' in name else name + str(i)
        v = lambda t: c.option('%s%d' % (t, i), [None, c.real('%sv%d' % (t, i), gen=lambda: c.rng.gauss(0, 1) * 10 ** c.rng.uniform(-30, 30)), 0.0, -0.0, 1e-300, 12345.678, -1e20])
        lo, up = v('lo'), v('up')
        k = c.option('kind%d' % i, ['range', 'range', 'fixed'])
        if k == 'fixed':
            lo = up = lo if lo is not None else 2.5
        out[name] = (lo, up)
    return out


def rounded(x):
    return None if x is None else float('%.7e' % x)


def agree(c, tag, b, want, exact=False):
    r = (lambda x: x) if exact else rounded
    c.check(tag + '_names', list(b.names) == list(want))
    for k, (lo, up) in want.items():
        c.check(tag + '_lower', b.getLower(k) == r(lo) and isinstance(b.getLower(k), (float, type(None))), lambda: '%s %s %s' % (k, lo, b.getLower(k)))
        c.check(tag + '_upper', b.getUpper(k) == r(up), lambda: '%s %s %s' % (k, up, b.getUpper(k)))
        if lo is not None and lo == up:
            c.check(tag + '_fixed', b.fixedValue(k) == r(lo) and b.fixedValueDict()[k] == r(lo))
        elif r(lo) != r(up) or lo is None:
            c.check(tag + '_free', b.fixedValue(k) is None and k not in b.fixedValueDict())
    c.check(tag + '_other', b.getLower('other') is None and b.getUpper('other') is None and b.fixedValue('other') is None)


@contract('C13', 'file', [B + 'saveToFile', B + 'loadFromFile', B + '__str__', B + 'setRange'], symbolic=False, runs=500)
def _(c):
    pp = c.module('getdist.parampriors')
    want = draw(c)
    b = pp.ParamBounds()
    for k, (lo, up) in want.items():
        style = c.option('style', ['number', 'string', 'inf'])
        if style == 'string':
            b.setRange(k, ['N' if lo is None else repr(lo), 'N' if up is None else repr(up)])
        elif style == 'inf':
            b.setRange(k, (-np.inf if lo is None else lo, np.inf if up is None else up))
        else:
            b.setRange(k, (lo, up))
    agree(c, 'set', b, want, True)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, c.option('file', ['x.ranges', 'y.bounds', 'a.b.ranges']))
        b.saveToFile(fn)
        text = open(fn, encoding='utf-8').read()
        c.check('text', text == str(b) and text.count('\n') == len(want))
        if c.flag('messy'):
            text = '\n# a comment line that is longer\n' + text.replace('\n', '   \n\n') + 'a b\n'
            open(fn, 'w', encoding='utf-8').write(text)
        e = pp.ParamBounds(fn)
        agree(c, 'read', e, want)
        c.check('origin', e.filenameLoadedFrom == os.path.basename(fn))
        e.saveToFile(fn)
        agree(c, 'again', pp.ParamBounds(fn), want)
        bad = os.path.join(d, 'x.txt')
        open(bad, 'w').write('a 1 2\n')
        c.check('extension', c.raises(ValueError, lambda: pp.ParamBounds(bad)))
    for bad in (1, None):
        c.check('name', c.raises(ValueError, lambda: b.setRange(bad, (0, 1))) and c.raises(ValueError, lambda: b.getLower(bad)) and c.raises(ValueError, lambda: b.getUpper(bad)))


@contract('C13', 'samples', [M + 'setRanges', M + 'getBounds', M + 'getLower', M + 'getUpper', M + '_initLimits', M + 'addDerived', 'getdist.chains:Chains.deleteFixedParams'], symbolic=False, runs=200)
def _(c):
    """hard limits reach the sample set from every input form, stay with the parameter, and override in the stated order"""
    m = c.module('getdist.mcsamples')
    pp = c.module('getdist.parampriors')
    r = np.random.RandomState(c.int('seed', 0, 10 ** 6))
    n, p = 40, c.int('p', 1, 4)
    names = ['q%d' % i for i in range(p)]
    x = r.rand(n, p)
    lim = [c.option('lim%d' % i, [(None, None), (-5.0, None), (None, 7.0), (-4.0, 6.5), (0.0, 1.0)]) for i in range(p)]
    form = c.option('form', ['list', 'tuple', 'dict', 'bounds', 'N'])
    if form == 'bounds':
        arg = pp.ParamBounds()
        for a, l in zip(names, lim):
            arg.setRange(a, l)
    elif form == 'N':
        arg = {a: ['N' if v is None else str(v) for v in l] for a, l in zip(names, lim)}
    else:
        arg = {'list': list(lim), 'tuple': tuple(lim), 'dict': dict(zip(names, lim))}[form]
    settings = {}
    want = dict(zip(names, lim))
    if c.flag('ini'):
        settings = {'limits[q0]': '-2 3'}
        want['q0'] = (-2.0, 3.0)
        if c.flag('all'):
            settings['all_limits'] = '-8 9'
            want = {a: (-8.0, 9.0) for a in names}
    s = mc(c, x.copy(), names=names, ranges=arg, settings=dict(settings))
    if form == 'bounds':
        c.check('input', [arg.getLower(a) for a in names] == [l[0] for l in lim])

    def look(s, want):
        for a, (lo, up) in want.items():
            c.check('lower', s.ranges.getLower(a) == lo, lambda: '%s %s %s' % (a, lo, s.ranges.getLower(a)))
            c.check('upper', s.ranges.getUpper(a) == up)
        b = s.getBounds()
        for a in s.paramNames.list():
            lo, up = want.get(a, (None, None))
            c.check('bound', b.getLower(a) == s.getLower(a) and b.getUpper(a) == s.getUpper(a) or not (b.getLower(a) and s.getLower(a)))
            c.check('bounds_subset', b.getLower(a) in (None, lo) and b.getUpper(a) in (None, up))
            c.check('hard', s.getLower(a) == lo and s.getUpper(a) == up, lambda: '%s %s %s' % (a, s.getLower(a), s.getUpper(a)))
            # a bound the samples touch is kept
            v = s[a]
            if lo is not None and lo > v.min() - 0.01 * (v.max() - v.min()):
                c.check('kept', b.getLower(a) == lo)
    look(s, want)
    rg = c.option('derived', [None, (0.0, None), (None, 30.0), (-1.0, 40.0)])
    s.addDerived(x[:, 0] * 20, 'd', range=rg)
    s.updateBaseStatistics()
    if rg:
        want['d'] = rg
    elif 'all_limits' in settings:
        want['d'] = (-8.0, 9.0)
    if 'all_limits' not in settings:
        look(s, want)
        c.check('duplicate', c.raises(Exception, lambda: s.addDerived(x[:, 0], 'q0', range=(50.0, 60.0))))
        look(s, want)
    with tempfile.TemporaryDirectory() as d:
        s.saveTextMetadata(d + '/r')
        e = pp.ParamBounds(d + '/r.ranges')
        for a in s.ranges.names:
            c.check('file', e.getLower(a) == rounded(s.ranges.getLower(a)) and e.getUpper(a) == rounded(s.ranges.getUpper(a)))
    # a parameter that does not vary becomes a fixed value
    y = x.copy()
    y[:, -1] = 0.25
    s = mc(c, np.hstack([y, x[:, :1] * 2]), names=names + ['z'])
    s.deleteFixedParams()
    c.check('deleted', names[-1] not in s.paramNames.list() and s.ranges.fixedValue(names[-1]) == 0.25 and s.ranges.fixedValueDict() == {names[-1]: 0.25})
    c.check('fixed_in_row', s.getParamSampleDict(0)[names[-1]] == 0.25 and names[-1] not in s.getParamSampleDict(0, want_fixed=False))
    c.check('bad', c.raises(ValueError, lambda: s.setRanges(3)))


# ------------------------------------------------------------------------------------------ proof for files of any number of lines
from pyvc.specs import LoopSpec, loopspec      # noqa: E402


class Ranges:
    """a file of any number of lines of any content; which lines set which limits, and an arbitrary earlier state"""

    def __init__(self, c):
        import z3
        from pyvc.core import cur, SNum
        from pyvc import ustr as u
        from pyvc.arr import SList
        from pyvc.smap import SMap
        self.z3, self.ctx, self.u, T, I = z3, cur(), u, u.TEXT, z3.IntSort()
        ctx, S = self.ctx, z3.Select
        self.raw, self.n = z3.Function('line', I, T), c.dim('lines', lo=0).t
        for x in ('', 'N'):
            u.lit(x)
        N = u.lit('N')
        self.t = lambda j, i: u.tok(self.raw(j), z3.IntVal(i))
        self.set = lambda j: u.ntok(self.raw(j)) == 3
        self.key = lambda j: self.t(j, 0)
        self.gives = {'lower': lambda j: z3.And(self.set(j), self.t(j, 1) != N), 'upper': lambda j: z3.And(self.set(j), self.t(j, 2) != N)}
        self.value = {'lower': lambda j: u.number(self.t(j, 1)), 'upper': lambda j: u.number(self.t(j, 2))}
        x, j = z3.Const('__x', T), z3.Int('__j')
        rng = self.rng = lambda j: z3.And(j >= 0, j < self.n)
        # definition: the last of the first j lines that sets this limit of x (-1: none)
        self.last = {}
        for w in ('lower', 'upper'):
            L = self.last[w] = z3.Function('last_' + w, T, I, I)
            ctx.axiom(('last', w), z3.ForAll([x], L(x, 0) == -1, patterns=[L(x, 0)]),
                      z3.ForAll([x, j], z3.Implies(rng(j), L(x, j + 1) == z3.If(z3.And(self.gives[w](j), self.key(j) == x), j, L(x, j))), patterns=[L(x, j + 1)]))
        # definition: the first line naming x (n: none); the number of lines before j that name a new parameter
        self.first = z3.Function('first_line', T, I)
        self.count = z3.Function('new_before', I, I)
        self.old = z3.Function('named_before', T, z3.BoolSort())
        self.new = lambda j: z3.And(self.set(j), z3.Not(self.old(self.key(j))), self.first(self.key(j)) == j)
        ctx.axiom('first', z3.ForAll([j], z3.Implies(z3.And(rng(j), self.set(j)), self.first(self.key(j)) <= j), patterns=[self.raw(j)]),
                  z3.ForAll([x], z3.And(self.first(x) >= 0, self.first(x) <= self.n, z3.Implies(self.first(x) < self.n, z3.And(self.set(self.first(x)), self.key(self.first(x)) == x))), patterns=[self.first(x)]),
                  self.count(0) == 0, z3.ForAll([j], z3.Implies(rng(j), self.count(j + 1) == self.count(j) + z3.If(self.new(j), 1, 0)), patterns=[self.raw(j)]))
        self.maps = {w: SMap(T, z3.RealSort(), SNum) for w in ('lower', 'upper')}
        self.before = {w: (m.has, m.val) for w, m in self.maps.items()}
        self.r0, self.ro = z3.Int('names_before'), z3.Function('name_before', I, T)
        ctx.assume(self.r0 >= 0)
        G = self

        class Names(SList):
            """the names in order, with the set of them"""

            def __init__(self, n, fn):
                SList.__init__(self, n, fn)
                self.has = ctx.fresh('names', z3.ArraySort(T, z3.BoolSort()))
                ctx.assume(z3.ForAll([x], S(self.has, x) == G.old(x), patterns=[S(self.has, x)]))

            def __contains__(self, y):
                return ctx.branch(S(self.has, u.term(y)))

            def append(self, y):
                SList.append(self, y)
                self.has = z3.Store(self.has, u.term(y), z3.BoolVal(True))
        self.names = Names(self.r0, lambda i: u.UStr(self.ro(z3.IntVal(i) if isinstance(i, int) else i)))
        self.k = None


@loopspec('getdist.parampriors', 'ParamBounds.loadFromFile', 0)
class RangeLines(LoopSpec):
    """after k lines: every limit is the last one set by those lines, else as before; the new names in order of appearance"""
    proof_only = True

    def G(self):
        from pyvc.core import cur
        return cur().ghost_ranges

    def invariant(self, loop, st, k):
        G = self.G()
        z3 = G.z3
        S, x, j, i = z3.Select, z3.Const('__x', G.u.TEXT), z3.Int('__j'), z3.Int('__i')
        o = loop.pre['self']
        out = []
        for w, m in (('lower', o.lower), ('upper', o.upper)):
            has0, val0 = G.before[w]
            L = G.last[w](x, k)
            out += [(w + ' last', z3.ForAll([x], z3.And(L >= -1, L < k), patterns=[L])),
                    (w + ' has', z3.ForAll([x], S(m.has, x) == z3.Or(S(has0, x), L >= 0), patterns=[S(m.has, x)])),
                    (w + ' val', z3.ForAll([x], S(m.val, x) == z3.If(L >= 0, G.value[w](L), S(val0, x)), patterns=[S(m.val, x)]))]
        out += [('named', z3.ForAll([x], S(o.names.has, x) == z3.Or(G.old(x), G.first(x) < k), patterns=[S(o.names.has, x)])),
                ('count', z3.And(o.names.n == G.r0 + G.count(k), G.count(k) >= 0)),
                ('order', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k, G.new(j)), z3.And(G.count(j) >= 0, G.count(j) < G.count(k), o.names.fn(G.r0 + G.count(j)).t == G.key(j))), patterns=[G.raw(j)])),
                ('kept', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < G.r0), o.names.fn(i).t == G.ro(i)), patterns=[G.ro(i)]))]
        return out

    def havoc(self, loop, st):
        G = self.G()
        z3 = G.z3
        o = loop.pre['self']
        G.k = loop.k
        o.lower.havoc()
        o.upper.havoc()
        f = G.ctx.fresh_fn('names', z3.IntSort(), G.u.TEXT)
        o.names.n, o.names.fn = G.r0 + G.count(loop.k), lambda i: G.u.UStr(f(z3.IntVal(i) if isinstance(i, int) else i))
        o.names.has = G.ctx.fresh('names', o.names.has.sort())
        loop.modifies = [o.lower, o.upper, o.names]
        self.assume_inv(loop, st)
        return {}


@contract('C13', 'file_any', [B + 'loadFromFile', B + 'setRange'], bounded=False, concrete=False, timeout=200, note='a file of any number of lines of any content, read into any earlier state')
def _(c):
    """reading a ranges file: every limit is the one last given for that name ('N' gives none), other lines change nothing, names in order of first appearance"""
    from pyvc.core import cur
    pp = c.module('getdist.parampriors')
    G = Ranges(c)
    z3, u, ctx, S = G.z3, G.u, cur(), G.z3.Select
    ctx.ghost_ranges, ctx.ground = G, True
    from pyvc.arr import SList
    ext = c.option('extension', ['.ranges', '.bounds', '.txt', ''])
    name, base = u.UStr(z3.Const('file_name', u.TEXT)), u.UStr(z3.Const('base_name', u.TEXT))

    class Opened:
        def __enter__(self):
            return SList(G.n, lambda i: u.UStr(G.raw(i)))

        def __exit__(self, *a):
            return False

    def opened(fn, mode='r', **kw):
        c.check('file', fn == name)
        c.check('mode', mode in ('r', 'rt'))
        c.check('encoding', kw.get('encoding') == 'utf-8-sig')
        return Opened()

    class Path:
        split = staticmethod(lambda fn: (u.UStr(z3.Const('folder', u.TEXT)), base))
        basename = staticmethod(lambda fn: base)
        splitext = staticmethod(lambda fn: (u.UStr(z3.Const('stem', u.TEXT)), ext))

    class Os:
        path = Path
    c.stub('getdist.parampriors', 'open', opened)
    c.stub('getdist.parampriors', 'os', Os)
    b = c.partial(pp.ParamBounds)
    b.names, b.lower, b.upper = G.names, G.maps['lower'], G.maps['upper']
    y = z3.Const('some_name', u.TEXT)
    j = z3.Int('some_line')
    try:
        b.loadFromFile(name)
    except ValueError:
        k = G.k
        if k is not None:
            bad = lambda i: z3.And(G.t(k, i) != u.lit('N'), z3.Not(u.is_number(G.t(k, i))))
            c.check('not a number', z3.And(ext != '.txt', G.rng(k), G.set(k), z3.Or(bad(1), bad(2))))
        else:
            c.check('other files', ext in ('.txt', ''))
        return
    c.check('ranges files', ext in ('.ranges', '.bounds'))
    c.check('name kept', b.filenameLoadedFrom == base)
    ctx.assume(G.rng(j))
    G.raw(j)
    n = G.n
    for w, m in (('lower', b.lower), ('upper', b.upper)):
        L, (has0, val0) = G.last[w](y, n), G.before[w]
        c.check(w + ' known', S(m.has, y) == z3.Or(S(has0, y), L >= 0))
        c.check(w, z3.Implies(S(m.has, y), S(m.val, y) == z3.If(L >= 0, G.value[w](L), S(val0, y))))
    c.check('number', b.names.n == G.r0 + G.count(n))
    c.check('names', z3.Implies(G.new(j), z3.And(G.count(j) >= 0, b.names.fn(G.r0 + G.count(j)).t == G.key(j))))
    i = z3.Int('some_old')
    ctx.assume(z3.And(i >= 0, i < G.r0))
    c.check('earlier names', b.names.fn(i).t == G.ro(i))
