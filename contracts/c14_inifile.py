"""C14: INI files read back exactly the settings written"""
import os
import tempfile
import numpy as np
from pyvc.api import contract, Skip

I = 'getdist.inifile:IniFile.'
KEYS = ['a', 'b', 'limits[x]', 'a(1)', 'a b', 'é', 'END2', 'include', 'x.y', 'k', 'force_twotail', 'A', 'nsamp']
VALUES = ['', '1', 'T', 'F', '3.5 4', 'x=1', 'a # b', 'é', '"q"', 'a  b', '=', '-1e-3', "it's", 'END', '$', 'a,b', 'INCLUDE(x)', 'True']


class Node:
    """one file of an include tree"""

    def __init__(self, path):
        self.path, self.items, self.includes, self.defaults = path, [], [], []

    def nodes(self):
        return [self] + [n for k in self.includes + self.defaults for n in k.nodes()]


def tree(c, root, tag='r', depth=0):
    n = Node(os.path.join(root, '%s.ini' % tag))
    for i in range(c.int(tag + '_n', 0, 4)):
        n.items.append((c.option('%s_key%d' % (tag, i), KEYS), c.option('%s_val%d' % (tag, i), VALUES), c.option('%s_com%d' % (tag, i), [None, None, [' c1'], [' x', 'y=2']])))
    if depth < 2:
        for kind, into in (('i', n.includes), ('d', n.defaults)):
            for i in range(c.option('%s_%s' % (tag, kind), [0, 0, 1] if depth else [0, 1, 2])):
                sub = c.option('%s_%s%d_dir' % (tag, kind, i), ['.', 'sub', 'other/deep'])
                into.append(tree(c, os.path.join(os.path.dirname(n.path), sub), tag + kind + str(i), depth + 1))
    return n


def write(c, n):
    os.makedirs(os.path.dirname(n.path), exist_ok=True)
    pad = c.option('pad', ['', ' ', '\t'])
    lines, head = [], []
    for k, v, com in n.items:
        for x in com or []:
            lines.append('#' + x)
        lines.append(pad + k + pad + '=' + pad + v + pad)
    for kind, subs in (('INCLUDE', n.includes), ('DEFAULT', n.defaults)):
        for j, s in enumerate(subs):
            name = s.path if c.flag('abs' + os.path.basename(s.path)) else os.path.relpath(s.path, os.path.dirname(n.path))
            head.append('%s(%s)' % (kind, name))
    lines = head + lines if c.flag('top') else lines + head
    if c.flag('junk'):
        lines += ['', '   ', 'a line without the separator', '# closing comment', '', 'END', 'a = not read', 'zz=1']
    text = '\n'.join(lines) + c.option('eol', ['', '\n'])
    with open(n.path, 'w', encoding='utf-8-sig' if c.flag('bom') else 'utf-8', newline=c.option('nl', ['\n', '\r\n'])) as f:
        f.write(text)
    for s in n.includes + n.defaults:
        write(c, s)


class Duplicate(Exception):
    pass


def meaning(n):
    """keys with values and comments in reading order.  Settings of a file and of the files it includes must be distinct; defaults fill what is left."""
    out, com = {}, {}

    def visit(n, soft):
        for k, v, cm in n.items:
            if k in out:
                if not soft:
                    raise Duplicate(k)
            else:
                out[k] = v
                if cm:
                    com[k] = cm
        for s in n.includes:
            visit(s, soft)
        for s in n.defaults:
            visit(s, True)
    visit(n, False)
    return out, com


def quiet(c, f):
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


@contract('C14', 'read_tree', [I + 'readFile', I + '__init__', I + 'relativeFileName'], symbolic=False, runs=1200)
def _(c):
    """values of an include/default tree follow the precedence; names are relative to the including file"""
    m = c.module('getdist.inifile')
    with tempfile.TemporaryDirectory() as d:
        t = tree(c, d)
        write(c, t)
        files = {n.path: open(n.path, 'rb').read() for n in t.nodes()}
        try:
            want, com = meaning(t)
        except Duplicate:
            c.check('duplicate', c.raises(m.IniError, lambda: quiet(c, lambda: m.IniFile(t.path))))
            return
        ini = m.IniFile(t.path)
        c.check('values', ini.params == want, lambda: '%s want %s' % (ini.params, want))
        c.check('order', list(ini.readOrder) == list(want), lambda: '%s' % ini.readOrder)
        c.check('comments', ini.comments == com, lambda: '%s want %s' % (ini.comments, com))
        c.check('origin', ini.original_filename == t.path, lambda: ini.original_filename)
        c.check('no_kept', ini.includes == [] and ini.defaults == [])
        ini.params['file'] = 'data/x.txt'
        c.check('relative', ini.relativeFileName('file') == os.path.join(os.path.dirname(t.path), 'data/x.txt'))
        c.check('relative_default', ini.relativeFileName('nofile', 'y.txt') == os.path.join(os.path.dirname(t.path), 'y.txt'))
        ini.params['file'] = '/abs/x.txt'
        c.check('absolute', ini.relativeFileName('file') == '/abs/x.txt')
        del ini.params['file']
        # without following the includes
        k = m.IniFile(t.path, keep_includes=True)
        own = {}
        for key, v, cm in t.items:
            own[key] = v
        c.check('own', k.params == own)
        c.check('kept', len(k.includes) == len(t.includes) and len(k.defaults) == len(t.defaults))
        for names, subs in ((k.includes, t.includes), (k.defaults, t.defaults)):
            c.check('kept_names', sorted(os.path.normpath(os.path.join(os.path.dirname(t.path), x)) for x in names) == sorted(os.path.normpath(s.path) for s in subs))
        # saved with its includes it means the same
        k.saveFile()
        again = m.IniFile(t.path)
        c.check('kept_values', again.params == want)
        for n in t.nodes()[1:]:
            c.check('others_untouched', open(n.path, 'rb').read() == files[n.path])
        ini.saveFile()
        c.check('flat', m.IniFile(t.path).params == want)
        for n in t.nodes()[1:]:
            c.check('others_untouched', open(n.path, 'rb').read() == files[n.path])


TYPED = {
    'bool': ([True, False], lambda v: 'TF'[not v]), 'int': ([0, 3, -7, 10 ** 12], str), 'float': ([0.0, -1.5, 1e-30, 3.0, 1 / 3.], repr),
    'string': (['', 'a', 'a b', 'T', '3'], str),
    'int_list': ([[], [1], [3, -2, 0]], lambda v: ' '.join(map(str, v))), 'float_list': ([[], [.5], [1.5, -2e9, 1 / 7.]], lambda v: ' '.join(map(repr, v))),
    'bool_list': ([[], [True], [False], [True, False, False, True]], lambda v: ' '.join('TF'[not x] for x in v)),
    'split': ([[], ['a'], ['a', 'b=c', 'd']], ' '.join), 'list': ([[], ['a'], ['a', 'b=c', 'd']], ' '.join),
    'ndarray': ([[.5], [1.5, -2e9, 1 / 7.]], lambda v: '  '.join(map(repr, v)))}


def equal(kind, a, b):
    if kind == 'ndarray':
        return isinstance(a, np.ndarray) and a.dtype == np.float64 and list(a) == list(b)
    return type(a) == type(b) and a == b and (not isinstance(a, list) or [type(x) for x in a] == [type(x) for x in b])


@contract('C14', 'round_trip', [I + 'saveFile', I + 'fileLines', I + '__str__', I + 'readFile'] + [I + k for k in TYPED], symbolic=False, runs=600)
def _(c):
    """typed values, given directly or in the file, are what the accessors return before and after saving"""
    m = c.module('getdist.inifile')
    want, kinds = {}, {}
    n = c.int('n', 0, 7)
    given = {}
    for i in range(n):
        key = c.option('key%d' % i, KEYS)
        kind = c.option('kind%d' % i, sorted(TYPED))
        v = c.option('v_%s_%d' % (kind, i), TYPED[kind][0])
        want[key], kinds[key] = v, kind
        as_text = kind == 'string' or c.flag('text%d' % i)
        given[key] = TYPED[kind][1](v) if as_text else (tuple(v) if isinstance(v, list) and c.flag('tuple%d' % i) else np.array(v) if kind == 'ndarray' and c.flag('array%d' % i) else v)
    before = dict(given)
    ini = m.IniFile(given)

    def look(ini, tag):
        c.check(tag + '_keys', set(ini.params) == set(want))
        for k, v in want.items():
            if isinstance(ini.params[k], np.ndarray):
                continue
            got = getattr(ini, kinds[k])(k) if kinds[k] not in ('split', 'list') or not isinstance(ini.params[k], tuple) else list(getattr(ini, kinds[k])(k))
            c.check(tag + '_value', equal(kinds[k], got, v), lambda: '%s as %s: %r want %r' % (k, kinds[k], got, v))
            c.check(tag + '_default_unused', equal(kinds[k], getattr(ini, kinds[k])(k, {'bool': not v, 'int': 5, 'float': 2.5, 'string': 'zz'}.get(kinds[k], ['7'])) if not isinstance(got, list) else got, v))
            c.check(tag + '_has', ini.hasKey(k) and ini.isSet(k, allowEmpty=True))
            if isinstance(ini.params[k], str):
                c.check(tag + '_set', ini.isSet(k) == (ini.params[k] != ''))
        c.check(tag + '_absent', not ini.hasKey('nokey') and not ini.isSet('nokey') and not ini.isSet('nokey', True))
    look(ini, 'given')
    c.check('no_file', c.raises(m.IniError, ini.saveFile))
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'x.ini')
        order = list(given)
        c.rng.shuffle(order)
        ini.readOrder = order[:c.int('known', 0, 7)] + ['gone']
        ini.saveFile(fn)
        e = m.IniFile(fn)
        look(e, 'read')
        known = [k for k in ini.readOrder if k in given]
        c.check('order', e.readOrder == known + sorted(set(given) - set(known)), lambda: '%s' % e.readOrder)
        e.saveFile()
        f = m.IniFile(fn)
        look(f, 'again')
        c.check('fixed_point', f.params == e.params and f.readOrder == e.readOrder and str(f) == str(e))
        if given:
            gone = list(given)[0]
            e.delete_keys([gone, 'absent'])
            e.saveFile()
            c.check('deleted', set(m.IniFile(fn).params) == set(given) - {gone})
            c.check('deleted_order', m.IniFile(fn).readOrder == [k for k in f.readOrder if k != gone])
    c.check('input', list(given) == list(before) and all(given[k] is before[k] for k in given))


@contract('C14', 'accessors', [I + k for k in TYPED] + [I + x for x in ('asType', 'setAttr', 'getAttr', 'isSet', 'hasKey', 'array_int', 'array_string', 'array_bool', 'array_float', 'replaceTags')],
          symbolic=False, runs=400)
def _(c):
    m = c.module('getdist.inifile')
    text = c.option('text', ['', 'T', 'F', 'True', 'False', 'true', '1', '-3', '2.5', '1e3', 'x', '1 2', 'T F', '2.5 x', 'None', 'Fx', 'nan'])
    ini = m.IniFile({'k': text, 'arr(2)': text})
    E = object()

    def parse(f):
        try:
            return f()
        except Exception:
            return E

    def boolean(s):
        return {'T': True, 'F': False}[s[0]]
    want = {'bool': lambda: boolean(text), 'int': lambda: int(text), 'float': lambda: float(text), 'string': lambda: text,
            'int_list': lambda: [int(x) for x in text.split()], 'float_list': lambda: [float(x) for x in text.split()], 'bool_list': lambda: [boolean(x) for x in text.split()],
            'split': lambda: text.split(), 'list': lambda: text.split(), 'ndarray': lambda: [float(x) for x in text.split()]}
    dflt = {'bool': True, 'int': 9, 'float': 1.25, 'string': 'dd', 'int_list': [4], 'float_list': [2.0], 'bool_list': [True], 'split': ['u'], 'list': ['u'], 'ndarray': [2.0]}
    for kind in TYPED:
        acc = getattr(ini, kind)
        w = parse(want[kind])
        scalar = kind in ('bool', 'int', 'float')
        if scalar and text == '':
            c.check('empty_default', acc('k', dflt[kind]) == dflt[kind])
            c.check('empty_required', (acc('k') is False) if kind == 'bool' else c.raises(m.IniError, lambda: acc('k')))
        elif w is E:
            c.check('rejected', c.raises(Exception, lambda: acc('k')), lambda: '%s of %r gave %r' % (kind, text, acc('k')))
            c.check('rejected_default', c.raises(Exception, lambda: acc('k', dflt[kind])))
        else:
            for got in (acc('k'), acc('k', dflt[kind])):
                c.check('parsed', repr(list(got) if kind == 'ndarray' else got) == repr([np.float64(x) for x in w] if kind == 'ndarray' else w), lambda: '%s of %r gave %r' % (kind, text, got))
        u = acc('none', dflt[kind])
        c.check('default', list(u) == dflt[kind] if kind == 'ndarray' else u == dflt[kind])
        if kind.endswith('list'):
            c.check('no_default', acc('none') == [])
        elif kind == 'bool':
            c.check('no_default', acc('none') is False)
        else:
            c.check('required', c.raises(m.IniError, lambda: acc('none')))
    for kind in ('int', 'string', 'bool', 'float'):
        a = getattr(ini, 'array_' + kind)
        one = parse(lambda: getattr(ini, kind)('k', dflt[kind]))
        got = parse(lambda: a('arr', 2, dflt[kind]))
        c.check('array', got is E if one is E else repr(got) == repr(one))
        c.check('array_other', a('arr', 1, dflt[kind]) == dflt[kind] and a('arr', default=dflt[kind]) == dflt[kind])
    i2 = m.IniFile()
    i2.params.update({'v(1)': '7', 'v(0)': '8', 'v(2)': '9', 'b(1)': 'T', 'b(0)': 'F'})
    c.check('array_first', i2.array_int('v') == 7 and i2.array_string('v') == '7' and i2.array_float('v') == 7.0 and i2.array_bool('b') is True)
    c.check('string_nonempty', ini.string('k', 'dd', allowEmpty=False) == (text or 'dd'))
    c.check('isset', ini.isSet('k') == (text != '') and ini.isSet('k', allowEmpty=True) and ini.hasKey('k'))

    class O:
        pass
    for kind, v in (('int', 4), ('float', .5), ('bool', True), ('str', 'a'), ('list', ['z']), ('ndarray', np.array([1., 2.]))):
        o = O()
        use_attr = c.flag('attr_' + kind)
        if use_attr:
            o.k = v
        kk = 'string' if kind == 'str' else kind
        w = parse(want[kk])
        if text == '':
            ini.setAttr('k', o, v)
            c.check('attr_empty', o.k is v)
        elif w is E:
            c.check('attr_rejected', c.raises(Exception, lambda: ini.setAttr('k', o, v)))
        else:
            ini.setAttr('k', o, v)
            c.check('attr', type(o.k) == type(v) and (list(o.k) == list(w) or text == 'nan') if kind in ('list', 'ndarray') else type(o.k) == type(v) and (o.k == w or o.k != o.k), lambda: '%s %r' % (kind, o.k))
        ini.setAttr('none', o, v)
        c.check('attr_default', o.none is v)
        back = m.IniFile()
        back.getAttr(o, 'none', comment='cc')
        c.check('get_attr', back.params == {'none': v} if kind != 'ndarray' else back.params['none'] is v)
        c.check('get_comment', back.comments == {'none': 'cc'})
    r = m.IniFile({'a': 'x TAG y TAG', 'b': text})
    r.replaceTags('TAG', 'W')
    c.check('tags', r.params == {'a': 'x W y W', 'b': text})


@contract('C14', 'environment', [I + 'expand_placeholders', I + 'readFile'], symbolic=False, runs=600)
def _(c):
    """$(var) in a value is replaced by the variable (nothing when it is not set), $$ next to a placeholder by one $, anything else is kept"""
    m = c.module('getdist.inifile')
    env = {'PYVC_A': c.option('A', ['val', '', 'a b', 'x)y', '$(PYVC_B)', '$$']), 'PYVC_B': 'bb'}
    kinds = [c.option('p%d' % i, ['A', 'B', 'U', 'text', 'dollar2', 'dollar', 'paren']) for i in range(c.int('n', 0, 6))]
    piece = {'A': '$(PYVC_A)', 'B': '$(PYVC_B)', 'U': '$(PYVC_UNSET)', 'text': 'ab/c', 'dollar2': '$$', 'dollar': '$ ', 'paren': '(z)'}
    res = {'A': env['PYVC_A'], 'B': 'bb', 'U': '', 'text': 'ab/c', 'dollar2': '$', 'dollar': '$ ', 'paren': '(z)'}
    if any(a in ('dollar', 'dollar2') and b == 'paren' for a, b in zip(kinds, kinds[1:])):
        raise Skip
    s = 'v' + ''.join(piece[k] for k in kinds) + c.option('end', ['w', 'w', '$'])
    active = '$(' in s
    if s.endswith('$$') and not kinds:
        raise Skip
    if s[-1] == '$' and kinds and kinds[-1] == 'dollar2':
        raise Skip
    want = 'v' + ''.join(res[k] for k in kinds) + s[-1] if active else s
    old = {k: os.environ.get(k) for k in env}
    os.environ.update(env)
    try:
        ini = m.IniFile()
        c.check('expand', ini.expand_placeholders(s) == want, lambda: '%r -> %r want %r' % (s, ini.expand_placeholders(s), want))
        with tempfile.TemporaryDirectory() as d:
            fn = d + '/x.ini'
            with open(fn, 'w') as f:
                f.write('k = %s\nl = 1\n' % s)
            c.check('file', m.IniFile(fn).params == {'k': want.strip() if not active else want, 'l': '1'})
            raw = m.IniFile(fn, expand_environment_variables=False)
            c.check('raw', raw.params == {'k': s, 'l': '1'})
    finally:
        for k in env:
            os.environ.pop(k, None)
            if old[k] is not None:
                os.environ[k] = old[k]


# ------------------------------------------------------------------------------------------ proof for any file
from pyvc.specs import LoopSpec, loopspec      # noqa: E402


class Lines:
    """a file of any number of lines of any content; what each line is, and what the settings of the file are"""

    def __init__(self, c, expand):
        import z3
        from pyvc.core import cur
        from pyvc import ustr as u
        from pyvc.arr import SList
        from pyvc.smap import SMap, CList
        self.z3, self.ctx, self.u, T, Int = z3, cur(), u, u.TEXT, z3.IntSort()
        self.raw = z3.Function('line', Int, T)
        self.n = c.dim('lines', lo=0).t
        self.seqs = z3.SeqSort(T)
        self.expand = (lambda t: u.uf('expanded', t)) if expand else (lambda t: t)
        lit, head, found = u.lit, u.head, u.found
        s = lambda j: u.uf('strip', self.raw(j))
        self.end = lambda j: s(j) == lit('END')
        self.com = lambda j: u.starts(s(j), head('#'))
        self.inc = lambda j: u.starts(s(j), head('INCLUDE('))
        self.dfl = lambda j: u.starts(s(j), head('DEFAULT('))
        eq = lambda j: u.find(s(j), found('='))
        self.set = lambda j: z3.And(z3.Not(self.com(j)), z3.Not(self.inc(j)), z3.Not(self.dfl(j)), eq(j) >= 0)
        self.key = lambda j: u.uf('strip', u.sub(s(j), z3.IntVal(0), eq(j)))
        self.val = lambda j: self.expand(u.uf('strip', u.tail(s(j), z3.simplify(eq(j) + 1))))
        self.text = lambda j: u.uf('rstrip', u.tail(s(j), z3.IntVal(1)))
        self.arg = lambda j: u.sub(s(j), z3.simplify(u.find(s(j), found('(')) + 1), u.rfind(s(j), found(')')))
        self.E = z3.Int('lines_read')
        self.first = z3.Function('first_setting', T, Int)
        self.coms = z3.Function('comments_before', Int, self.seqs)
        ctx = self.ctx
        for x in ('', 'END', '#', 'INCLUDE(', 'DEFAULT(', '='):
            lit(x)
        self.params = SMap(T, T, u.UStr)
        self.comments = SMap(T, self.seqs, CList)
        self.has0, self.val0, self.hasc0, self.valc0 = self.params.has, self.params.val, self.comments.has, self.comments.val
        self.old = lambda x: z3.Select(self.has0, x)
        self.new = lambda j: z3.And(self.set(j), z3.Not(self.old(self.key(j))), self.first(self.key(j)) == j)
        E, j, x = self.E, z3.Int('__j'), z3.Const('__x', T)
        rng = lambda j: z3.And(j >= 0, j < E)
        # definitions: lines up to the first END; first setting of a key; comment lines standing before a line; counts
        ctx.axiom('lines', E >= 0, E <= self.n, z3.ForAll([j], z3.Implies(rng(j), z3.Not(self.end(j))), patterns=[self.raw(j)]), z3.Implies(E < self.n, self.end(E)),
                  z3.ForAll([j], z3.Implies(z3.And(rng(j), self.set(j)), self.first(self.key(j)) <= j), patterns=[self.raw(j)]),
                  z3.ForAll([x], z3.And(self.first(x) >= 0, self.first(x) <= E, z3.Implies(self.first(x) < E, z3.And(self.set(self.first(x)), self.key(self.first(x)) == x))), patterns=[self.first(x)]),
                  self.coms(0) == z3.Empty(self.seqs),
                  z3.ForAll([j], z3.Implies(rng(j), self.coms(j + 1) == z3.If(self.com(j), z3.Concat(self.coms(j), z3.Unit(self.text(j))), z3.Empty(self.seqs))), patterns=[self.raw(j)]))
        self.count, self.line = {}, {}
        for nm, p in (('new', self.new), ('inc', self.inc), ('dfl', self.dfl)):
            f, g = z3.Function('count_' + nm, Int, Int), z3.Function('line_' + nm, Int, Int)
            self.count[nm], self.line[nm] = f, g
            ctx.axiom(('count', nm), f(0) == 0, z3.ForAll([j], z3.Implies(rng(j), f(j + 1) == f(j) + z3.If(p(j), 1, 0)), patterns=[self.raw(j)]),
                      z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < f(E)), z3.And(rng(g(j)), p(g(j)), f(g(j)) == j)), patterns=[g(j)]))
        self.r0 = z3.Int('read_before')
        ctx.assume(self.r0 >= 0)
        ro = z3.Function('read_before_key', Int, T)
        self.ro = ro
        self.order = SList(self.r0, lambda i: u.UStr(ro(z3.IntVal(i) if isinstance(i, int) else i)))
        self.k = None

    def elems(self, xs, base, p, count, val, k):
        """the list holds val(j) of the lines j < k with p(j), in order, after its first base elements"""
        z3 = self.z3
        j = z3.Int('__j')
        out = [('n', xs.n == base + count(k)), ('count', count(k) >= 0)]
        if xs.fn is not None:
            out.append(('in', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k, p(j)), z3.And(count(j) >= 0, count(j) < count(k), xs.fn(base + count(j)).t == val(j))), patterns=[self.raw(j)])))
        return out

    def fresh_list(self, name, n, keep=None, base=None):
        z3 = self.z3
        from pyvc.arr import SList
        f = self.ctx.fresh_fn(name, z3.IntSort(), self.u.TEXT)
        if keep is not None:
            i = z3.Int('__i')
            self.ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < base), f(i) == keep(i)), patterns=[f(i)]))
        return SList(n, lambda i: self.u.UStr(f(z3.IntVal(i) if isinstance(i, int) else i)))


@loopspec('getdist.inifile', 'IniFile.readFile', 0)
class LinesLoop(LoopSpec):
    """after k lines: the settings, comments and file names of those lines"""
    proof_only = True

    def invariant(self, loop, st, k):
        from pyvc.smap import CList
        G = self.G()
        z3 = G.z3
        x, j = z3.Const('__x', G.u.TEXT), z3.Int('__j')
        S, first = z3.Select, G.first
        o = loop.pre['self']
        out = [('end', k <= G.E),
               ('has', z3.ForAll([x], S(o.params.has, x) == z3.Or(G.old(x), first(x) < k), patterns=[S(o.params.has, x)])),
               ('val', z3.ForAll([x], S(o.params.val, x) == z3.If(z3.And(z3.Not(G.old(x)), first(x) < k), G.val(first(x)), S(G.val0, x)), patterns=[S(o.params.val, x)])),
               ('chas', z3.ForAll([x], S(o.comments.has, x) == z3.Or(S(G.hasc0, x), z3.And(z3.Not(G.old(x)), first(x) < k, z3.Length(G.coms(first(x))) > 0)), patterns=[S(o.comments.has, x)])),
               ('cval', z3.ForAll([x], S(o.comments.val, x) == z3.If(z3.And(z3.Not(G.old(x)), first(x) < k, z3.Length(G.coms(first(x))) > 0), G.coms(first(x)), S(G.valc0, x)), patterns=[S(o.comments.val, x)])),
               ('com', CList.of(st['comments'], G.seqs) == G.coms(k))]
        if not G.soft:
            out.append(('nodup', z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < k, G.set(j)), z3.And(z3.Not(G.old(G.key(j))), first(G.key(j)) == j)), patterns=[G.raw(j)])))
        lists = (('order', o.readOrder, G.r0, G.new, 'new', G.key), ('inc', st['fileincludes'], 0, G.inc, 'inc', G.arg), ('dfl', st['filedefaults'], 0, G.dfl, 'dfl', G.arg))
        for nm, xs, base, p, cnt, v in lists:
            out += [(nm + a, f) for a, f in G.elems(xs, base, p, G.count[cnt], v, k)]
        if not isinstance(o.readOrder, list):
            i = z3.Int('__i')
            out.append(('kept', z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < G.r0), o.readOrder.fn(i).t == G.ro(i)), patterns=[G.ro(i)])))
        return out

    def G(self):
        from pyvc.core import cur
        return cur().ghost_lines

    def havoc(self, loop, st):
        from pyvc.smap import CList
        G = self.G()
        o = loop.pre['self']
        G.k = k = loop.k
        o.params.havoc()
        o.comments.havoc()
        o.readOrder.n = G.r0 + G.count['new'](k)
        o.readOrder.fn = G.fresh_list('order', None).fn
        new = dict(comments=CList(G.ctx.fresh('comments', G.seqs)))
        for nm, cnt in (('fileincludes', 'inc'), ('filedefaults', 'dfl')):
            st[nm].n, st[nm].fn = G.count[cnt](k), G.fresh_list(nm, None).fn
        loop.modifies = [o.params, o.comments, o.readOrder, st['fileincludes'], st['filedefaults'], new['comments']]
        self.assume_inv(loop, dict(st, **new))
        return new


class CallsLoop(LoopSpec):
    """one call per file, in order"""
    proof_only = True

    def invariant(self, loop, st, k):
        from pyvc.core import cur
        G = cur().ghost_lines
        return [('calls', G.calls == k + (G.count['inc'](G.E) if self.later else 0))]

    def havoc(self, loop, st):
        from pyvc.core import cur
        cur().ghost_lines.calls = cur().fresh('calls', loop.k.sort())
        loop.modifies = []
        self.assume_inv(loop, st)
        return {}


@loopspec('getdist.inifile', 'IniFile.readFile', 1)
class IncludesLoop(CallsLoop):
    later = False


@loopspec('getdist.inifile', 'IniFile.readFile', 2)
class DefaultsLoop(CallsLoop):
    later = True


ANY = dict(bounded=False, concrete=False, timeout=300, note='one file of any number of lines of any content; included and default files through the same contract, hence trees of any depth')


@contract('C14', 'read_any', [I + 'readFile'], **ANY)
def _(c):
    read_file(c, False)


@contract('C14', 'read_kept', [I + 'readFile'], **ANY)
def _(c):
    read_file(c, True)


def read_file(c, keep):
    """settings, comments, reading order and files of any INI file: comment lines, END, duplicates, files included then defaults"""
    from pyvc.core import cur
    import z3
    m = c.module('getdist.inifile')
    expand, soft = c.flag('expand'), c.flag('soft')
    G = Lines(c, expand)
    u, ctx, S = G.u, cur(), z3.Select
    ctx.ground = True
    ctx.ghost_lines, G.soft, G.calls = G, soft, z3.IntVal(0)
    from pyvc.arr import SList
    name = u.UStr(z3.Const('file_name', u.TEXT))
    isabs = z3.Function('isabs', u.TEXT, z3.BoolSort())
    cases = []

    class Opened:
        def __enter__(self):
            return SList(G.n, lambda i: u.UStr(G.raw(i)))

        def __exit__(self, *a):
            return False

    def opened(fn, mode='r', **kw):
        c.check('file', fn == name)
        c.check('mode', mode in ('r', 'rt'))
        c.check('encoding', kw.get('encoding') == 'utf-8-sig')
        return Opened()

    xa, xb = z3.Const('__a', u.TEXT), z3.Const('__b', u.TEXT)
    ctx.axiom('path_join', z3.ForAll([xa, xb], z3.Implies(isabs(xb), u.uf('path_join', xa, xb) == xb), patterns=[u.uf('path_join', xa, xb)]))
    class Path:
        isabs = staticmethod(lambda x: ctx.branch(isabs(u.term(x))))
        join = staticmethod(lambda a, b: u.UStr(u.uf('path_join', u.term(a), u.term(b))))
        dirname = staticmethod(lambda x: u.UStr(u.uf('path_dirname', u.term(x))))

    class Os:
        path = Path
    ctx.empty_list = lambda: SList(z3.IntVal(0), None)
    c.stub('getdist.inifile', 'open', opened)
    c.stub('getdist.inifile', 'os', Os)
    ini = c.partial(m.IniFile)
    ini.params, ini.comments, ini.readOrder = G.params, G.comments, G.order
    ini.expand_environment_variables = expand
    ini.original_filename = 'before'
    i0, d0 = z3.Int('includes_before'), z3.Int('defaults_before')
    ctx.assume(z3.And(i0 >= 0, d0 >= 0))
    ini.includes, ini.defaults = G.fresh_list('includes', i0), G.fresh_list('defaults', d0)
    ini.expand_placeholders = lambda s: u.UStr(G.expand(u.term(s)))
    ninc, ndfl, norder = G.count['inc'](G.E), G.count['dfl'](G.E), G.r0 + G.count['new'](G.E)

    def read(fn, keep_includes=False, if_not_defined=False):
        # the contract of the nested call: which file, in which turn and how
        k = G.calls
        c.check('not kept', not keep and keep_includes is False)
        c.check('after own settings', ini.readOrder.n == norder)
        c.check('turn', z3.And(k >= 0, k < ninc + ndfl))
        x = z3.If(k < ninc, G.arg(G.line['inc'](k)), G.arg(G.line['dfl'](k - ninc)))
        c.check('nested file', u.term(fn) == z3.If(isabs(x), x, u.uf('path_join', u.uf('path_dirname', name.t), x)))
        c.check('defaults do not override', z3.BoolVal(bool(if_not_defined)) == z3.Or(k >= ninc, soft))
        G.calls = z3.simplify(k + 1)
    ini.readFile = read
    E, first = G.E, G.first
    rng = lambda j: z3.And(j >= 0, j < E)
    try:
        r = m.IniFile.readFile(ini, name, keep_includes=keep, if_not_defined=soft)
    except m.IniError:
        k = G.k
        c.check('duplicate', z3.And(not soft, rng(k), G.set(k), z3.Or(G.old(G.key(k)), first(G.key(k)) < k)))
        return
    c.check('result', r is ini.params)
    c.check('name', u.term(ini.original_filename) == name.t)
    x, j = z3.Const('some_key', u.TEXT), z3.Int('some_line')
    ctx.assume(rng(j))
    G.raw(j)
    P, C = ini.params, ini.comments
    c.check('keys', S(P.has, x) == z3.Or(G.old(x), first(x) < E))
    c.check('values', z3.Implies(S(P.has, x), S(P.val, x) == z3.If(G.old(x), S(G.val0, x), G.val(first(x)))))
    c.check('set', z3.Implies(G.set(j), S(P.has, G.key(j))))
    if not soft:
        c.check('no duplicate', z3.Implies(G.set(j), z3.And(z3.Not(G.old(G.key(j))), first(G.key(j)) == j)))
    mine = z3.And(z3.Not(G.old(x)), first(x) < E, z3.Length(G.coms(first(x))) > 0)
    c.check('comment keys', S(C.has, x) == z3.Or(S(G.hasc0, x), mine))
    c.check('comments', z3.Implies(S(C.has, x), S(C.val, x) == z3.If(mine, G.coms(first(x)), S(G.valc0, x))))
    c.check('order length', ini.readOrder.n == norder)
    c.check('order', z3.Implies(G.new(j), ini.readOrder.fn(G.r0 + G.count['new'](j)).t == G.key(j)))
    i = z3.Int('some_old')
    ctx.assume(z3.And(i >= 0, i < G.r0))
    c.check('order kept', ini.readOrder.fn(i).t == G.ro(i))
    if keep:
        c.check('no calls', G.calls == 0)
        for nm, xs, base, p, cnt in (('includes', ini.includes, i0, G.inc, 'inc'), ('defaults', ini.defaults, d0, G.dfl, 'dfl')):
            c.check(nm + ' length', xs.n == base + G.count[cnt](E))
            c.check(nm, z3.Implies(p(j), xs.fn(base + G.count[cnt](j)).t == G.arg(j)))
    else:
        c.check('all files', G.calls == ninc + ndfl)
        c.check('nothing kept', z3.And(ini.includes.n == i0, ini.defaults.n == d0))
