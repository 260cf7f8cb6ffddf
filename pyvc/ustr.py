"""strings of arbitrary content as elements of an abstract sort: operations on them are functions of the text about which
only the stated facts are used (each true of Python's str), so what is proved holds for every text"""
import z3

from . import core
from .core import Unsupported, SNum, wrap, lift, cur
from .sstr import SStr

TEXT = z3.DeclareSort('Text')
I, B = z3.IntSort(), z3.BoolSort()
starts = z3.Function('text_startswith', TEXT, TEXT, B)
ends = z3.Function('text_endswith', TEXT, TEXT, B)
find = z3.Function('text_find', TEXT, TEXT, I)
rfind = z3.Function('text_rfind', TEXT, TEXT, I)
sub = z3.Function('text_slice', TEXT, I, I, TEXT)
tail = z3.Function('text_from', TEXT, I, TEXT)
char = z3.Function('text_char', TEXT, I, TEXT)
cat = z3.Function('text_concat', TEXT, TEXT, TEXT)
length = z3.Function('text_len', TEXT, I)
ntok = z3.Function('text_tokens', TEXT, I)
tok = z3.Function('text_token', TEXT, I, TEXT)
is_number = z3.Function('text_is_number', TEXT, B)
number = z3.Function('text_number', TEXT, z3.RealSort())
_uf = {}


def uf(name, *args):
    k = (name, tuple(a.sort().name() for a in args))
    if k not in _uf:
        _uf[k] = z3.Function('text_' + name, *[a.sort() for a in args], TEXT)
    return _uf[k](*args)


def lit(s):
    """the constant of a literal, with what is known of it against the other literals"""
    c = cur()
    if not hasattr(c, 'texts'):
        c.texts, c.heads, c.tails, c.subs = {}, [], [], []
    if s not in c.texts:
        t = z3.Const('text:' + s, TEXT)
        c.texts[s] = t
        c.axioms.append(length(t) == len(s))
        for o, u in c.texts.items():
            if o != s:
                c.axioms.append(t != u)
        for a in c.heads:
            c.axioms.append(starts(t, c.texts[a]) == z3.BoolVal(s.startswith(a)))
        for a in c.tails:
            c.axioms.append(ends(t, c.texts[a]) == z3.BoolVal(s.endswith(a)))
        for a in c.subs:
            c.axioms.append(find(t, c.texts[a]) == s.find(a))
        if s == '':
            x = z3.Const('__x', TEXT)
            c.axioms.append(z3.ForAll([x], z3.And(length(x) >= 0, (length(x) == 0) == (x == t)), patterns=[length(x)]))
    return c.texts[s]


def head(a):
    c, t = cur(), lit(a)
    if a not in c.heads:
        x = z3.Const('__x', TEXT)
        for s, u in c.texts.items():
            c.axioms.append(starts(u, t) == z3.BoolVal(s.startswith(a)))
        for b in c.heads:
            for p, q in ((a, b), (b, a)):
                if q.startswith(p):
                    c.axioms.append(z3.ForAll([x], z3.Implies(starts(x, lit(q)), starts(x, lit(p))), patterns=[starts(x, lit(q))]))
            if not (a.startswith(b) or b.startswith(a)):
                c.axioms.append(z3.ForAll([x], z3.Not(z3.And(starts(x, lit(a)), starts(x, lit(b)))), patterns=[starts(x, lit(a)), starts(x, lit(b))]))
        if len(a) == 1:
            c.axioms.append(z3.ForAll([x], starts(x, t) == z3.And(x != lit(''), char(x, z3.IntVal(0)) == t), patterns=[starts(x, t), char(x, z3.IntVal(0))]))
        c.heads.append(a)
    return t


def found(a):
    """facts of searching a literal"""
    c, t = cur(), lit(a)
    if a not in c.subs:
        x = z3.Const('__x', TEXT)
        c.axioms.append(z3.ForAll([x], z3.And(find(x, t) >= -1, (find(x, t) == 0) == starts(x, head(a))), patterns=[find(x, t)]))
        c.axioms.append(z3.ForAll([x], z3.And(rfind(x, t) >= find(x, t), (rfind(x, t) < 0) == (find(x, t) < 0)), patterns=[rfind(x, t)]))
        for s, u in c.texts.items():
            c.axioms.append(find(u, t) == s.find(a))
        c.subs.append(a)
    return t


def term(x):
    if isinstance(x, SStr):
        if x.t.sort() != TEXT:
            raise Unsupported('texts of two kinds')
        return x.t
    if isinstance(x, str):
        return lit(x)
    raise Unsupported('text operand %r' % type(x))


class UStr(SStr):
    def __init__(self, t=None, ps=None):
        self.ps = [t] if ps is None else ps
        self._t = t

    @property
    def t(self):
        if self._t is None:
            ts = [lit(p) if isinstance(p, str) else p for p in self.ps]
            r = ts[-1] if ts else lit('')
            for p in reversed(ts[:-1]):
                r = cat(p, r)
            self._t = r
        return self._t

    def __eq__(self, o):
        if isinstance(o, str) or isinstance(o, UStr):
            return wrap(self.t == term(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(z3.Not(lift(r))) if not isinstance(r, bool) else not r

    __hash__ = object.__hash__

    def _cat(self, ps):
        out = []
        for p in ps:
            if isinstance(p, str) and not p:
                continue
            if out and isinstance(p, str) and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        return UStr(ps=out)

    def _ps(self, o):
        if isinstance(o, str):
            return [o]
        if isinstance(o, UStr):
            return o.ps
        raise Unsupported('text operand %r' % type(o))

    def __add__(self, o):
        return self._cat(self.ps + self._ps(o))

    def __radd__(self, o):
        return self._cat(self._ps(o) + self.ps)

    def __bool__(self):
        return cur().branch(self.t != lit(''))

    def __slen__(self):
        lit('')
        return wrap(length(self.t))

    def __contains__(self, o):
        return cur().branch(find(self.t, self._sought(o)) >= 0)

    def _sought(self, o):
        return found(o) if isinstance(o, str) else term(o)

    def startswith(self, o):
        if isinstance(o, tuple):
            return wrap(z3.Or(*[starts(self.t, head(x)) for x in o]))
        return wrap(starts(self.t, head(o) if isinstance(o, str) else term(o)))

    def endswith(self, o):
        c = cur()
        t = term(o)
        if isinstance(o, str) and o not in c.tails:
            for s, u in c.texts.items():
                c.axioms.append(ends(u, t) == z3.BoolVal(s.endswith(o)))
            c.tails.append(o)
        return wrap(ends(self.t, t))

    def find(self, s):
        return wrap(find(self.t, self._sought(s)))

    def rfind(self, s):
        return wrap(rfind(self.t, self._sought(s)))

    def index(self, s):
        r = find(self.t, self._sought(s))
        if not cur().branch(r >= 0):
            raise ValueError('substring not found')
        return wrap(r)

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('string slice step')
            lo = lift(0 if i.start is None else i.start)
            if i.stop is None:
                return self if isinstance(i.start, (int, type(None))) and not i.start else UStr(tail(self.t, z3.simplify(lo)))
            return UStr(sub(self.t, z3.simplify(lo), z3.simplify(lift(i.stop))))
        k = lift(i)
        n = lift(self.__slen__())
        if not cur().branch(z3.And(k < n, k >= -n)):
            raise IndexError('string index out of range')
        return UStr(char(self.t, k))

    def partition(self, a):
        if not cur().branch(find(self.t, self._sought(a)) >= 0):
            return self, '', ''
        p = self.find(a)
        return self[0:p], a, self[p + len(a):]

    def split(self, sep=None, maxsplit=-1):
        if sep is None and maxsplit == -1:
            # tokens: any number of non-empty texts without white space around them
            from .arr import SList
            x, i = z3.Const('__x', TEXT), z3.Int('__i')
            t = tok(x, i)
            cur().axiom('text_tokens', z3.ForAll([x], ntok(x) >= 0, patterns=[ntok(x)]),
                        z3.ForAll([x, i], z3.Implies(z3.And(i >= 0, i < ntok(x)), z3.And(uf('strip', t) == t, t != lit(''))), patterns=[t]))
            y = self.t
            return SList(ntok(y), lambda i: UStr(tok(y, lift(i))))
        if sep is None or maxsplit != 1:
            raise Unsupported('split of a symbolic text')
        x, y, z = self.partition(sep)
        return [x] if y == '' else [x, z]

    def _f(name):
        def f(self, *a):
            return UStr(uf(name, self.t, *[term(x) for x in a]))
        return f
    lstrip, rstrip, lower, upper, replace = _f('lstrip'), _f('rstrip'), _f('lower'), _f('upper'), _f('replace')

    def strip(self, *a):
        r = uf('strip', self.t, *[term(x) for x in a])
        if not a:
            x = z3.Const('__x', TEXT)
            f = lambda y: uf('strip', y)
            cur().axiom('text_strip', z3.ForAll([x], f(f(x)) == f(x), patterns=[f(f(x))]))
        return UStr(r)

    def to_float(self):
        if not cur().branch(is_number(self.t)):
            raise ValueError('could not convert string to float')
        return SNum(number(self.t))

    def _no(self, *a, **k):
        raise Unsupported('operation on a symbolic text')
    rsplit = splitlines = count = isdigit = isspace = isalpha = format = encode = title = capitalize = __lt__ = __le__ = __gt__ = __ge__ = __mul__ = __iter__ = _no
    rindex = rpartition = to_int = expandtabs = zfill = join = _no

    def __repr__(self):
        return 'UStr<%s>' % str(self.t)[:60]

    def __str__(self):
        return '<text>'


def has(b):
    return isinstance(b, UStr) or isinstance(b, tuple) and any(isinstance(x, UStr) for x in b)


def format_percent(fmt, args):
    args = args if isinstance(args, tuple) else (args,)
    r, i, k = UStr(ps=[]), 0, 0
    while i < len(fmt):
        if fmt[i] != '%':
            r = r + fmt[i]
            i += 1
            continue
        s = fmt[i + 1]
        i += 2
        if s == '%':
            r = r + '%'
            continue
        a = args[k]
        k += 1
        if s != 's' and isinstance(a, UStr) or s not in 'sdi' or isinstance(a, SNum):
            raise Unsupported('format %s of a symbolic value' % s)
        r = r + (a if isinstance(a, UStr) else ('%' + s) % a)
    return r


def join(s, xs):
    r = UStr(ps=[])
    for k, x in enumerate(xs):
        r = r + (s if k else '') + x if isinstance(x, (str, UStr)) else UStr._no(s)
    return r
