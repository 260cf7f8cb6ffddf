"""symbolic strings (z3 sequences)"""
import z3

from . import core
from .core import Unsupported, SNum, SBool, wrap, lift


class SStr:
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        if isinstance(o, SStr) and o.t.sort() == self.t.sort():
            return wrap(self.t == o.t)
        if isinstance(o, str) and self.t.sort() != z3.StringSort():
            raise Unsupported('abstract name compared with a string')
        if isinstance(o, str):
            return wrap(self.t == z3.StringVal(o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(z3.Not(lift(r))) if not isinstance(r, bool) else not r

    __hash__ = object.__hash__

    def __add__(self, o):
        return SStr(z3.Concat(self.t, st(o)))

    def __radd__(self, o):
        return SStr(z3.Concat(st(o), self.t))

    def __bool__(self):
        return core.cur().branch(z3.Length(self.t) > 0)

    def __slen__(self):
        return wrap(z3.Length(self.t))

    def __contains__(self, o):
        return core.cur().branch(z3.Contains(self.t, st(o)))

    def startswith(self, o):
        return wrap(z3.PrefixOf(st(o), self.t))

    def endswith(self, o):
        return wrap(z3.SuffixOf(st(o), self.t))

    def __getitem__(self, i):
        n = z3.Length(self.t)
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('string slice step')
            lo = core.lift(i.start) if i.start is not None else z3.IntVal(0)
            hi = core.lift(i.stop) if i.stop is not None else n
            f = lambda x: z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), z3.If(x > n, n, x))
            lo, hi = f(lo), f(hi)
            return SStr(z3.simplify(z3.If(hi > lo, z3.SubString(self.t, lo, hi - lo), z3.StringVal(''))))
        k = core.lift(i)
        if not core.cur().branch(z3.And(k < n, k >= -n)):
            raise IndexError('string index out of range')
        k = z3.If(k >= 0, k, k + n)
        return SStr(z3.SubString(self.t, k, 1))

    def find(self, s, start=None):
        return wrap(z3.IndexOf(self.t, st(s), z3.IntVal(0) if start is None else lift(start)))

    def strip(self, chars=None):
        r = strip_parts(self.t, chars)
        return SStr(uf('strip' + (chars or ''), self.t)) if r is None else r

    def split(self, sep=None, maxsplit=-1):
        """first separator only; decided when every part before it is known to be free of the separator"""
        if maxsplit != 1:
            raise Unsupported('split of a symbolic string')
        ps = parts(self.t)
        for k, p in enumerate(ps):
            if not z3.is_string_value(p):
                free = nows(p) if sep is None else z3.Not(z3.Contains(p, z3.StringVal(sep)))
                if not core.cur().entails(free):
                    raise Unsupported('split of a symbolic string')
                continue
            lit = z3_text(p)
            if sep is None:
                if k == 0 and lit[:1].isspace():
                    raise Unsupported('split of a symbolic string')
                at = [i for i, ch in enumerate(lit) if ch.isspace()]
                if not at:
                    continue
                head = ps[:k] + [z3.StringVal(lit[:at[0]])]
                rest = lit[at[0]:].lstrip()
                tail = ([z3.StringVal(rest)] if rest else []) + ps[k + 1:]
                if not rest:
                    q = strip_left(ps[k + 1:])
                    if q is None:
                        raise Unsupported('split of a symbolic string')
                    tail = q
                return [build(head)] + ([build(tail)] if tail else [])
            if sep in lit:
                i = lit.index(sep)
                return [build(ps[:k] + [z3.StringVal(lit[:i])]), build([z3.StringVal(lit[i + len(sep):])] + ps[k + 1:])]
        return [self]

    def replace(self, a, b):
        if isinstance(a, str) and core.cur().entails(z3.Not(z3.Contains(self.t, z3.StringVal(a)))):
            return self
        raise Unsupported('replace in a symbolic string')

    def lower(self):
        return SStr(uf('lower', self.t))

    def upper(self):
        return SStr(uf('upper', self.t))

    def __str__(self):
        return '<symbolic string>'

    def __format__(self, spec):
        raise Unsupported('formatting a symbolic string')

    def __repr__(self):
        return 'SStr<%s>' % str(self.t)[:60]

    def __deepcopy__(self, memo):
        return self


nows = z3.Function('lib_str_nowhitespace', z3.StringSort(), z3.BoolSort())     # not empty, no white space
trimmed = z3.Function('lib_str_trimmed', z3.StringSort(), z3.BoolSort())        # not empty, no white space at its ends


def z3_text(t):
    return t.as_string() if '\\u' not in t.as_string() else __import__('re').sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), t.as_string())


def parts(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [q for ch in t.children() for q in parts(ch)]
    return [t]


def build(ps):
    out = []
    for p in ps:
        if z3.is_string_value(p):
            x = z3_text(p)
            if not x:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += x
            else:
                out.append(x)
        else:
            out.append(p)
    if all(isinstance(x, str) for x in out):
        return ''.join(out)
    out = [z3.StringVal(x) if isinstance(x, str) else x for x in out]
    return SStr(out[0]) if len(out) == 1 else SStr(z3.Concat(*out))


def ends_free(p, chars):
    """p is known not to be empty and not to start or end with a character of the set"""
    c = core.cur()
    if chars is None:
        return c.entails(z3.Or(nows(p), trimmed(p)))
    return c.entails(z3.And(z3.Length(p) > 0, *[z3.Not(z3.Contains(p, z3.StringVal(ch))) for ch in chars]))


def strip_left(ps, chars=None):
    ps = list(ps)
    while ps:
        p = ps[0]
        if z3.is_string_value(p):
            x = z3_text(p).lstrip(chars)
            if x:
                return [z3.StringVal(x)] + ps[1:]
            ps.pop(0)
        elif ends_free(p, chars):
            return ps
        else:
            return None
    return ps


def strip_parts(t, chars):
    ps = strip_left(parts(t), chars)
    if ps is None:
        return None
    while ps:
        p = ps[-1]
        if z3.is_string_value(p):
            x = z3_text(p).rstrip(chars)
            if x:
                ps[-1] = z3.StringVal(x)
                return build(ps)
            ps.pop()
        elif ends_free(p, chars):
            return build(ps)
        else:
            return None
    return ''


class SSet:
    """set of strings, some symbolic"""

    def __init__(self, xs):
        self.xs = list(xs)

    def intersection(self, o):
        o = list(o.xs if isinstance(o, SSet) else o)
        return SMeet([lift(core.to_z3bool(a == b)) if not isinstance(a == b, bool) else z3.BoolVal(a == b) for a in self.xs for b in o])

    __and__ = intersection

    def isdisjoint(self, o):
        return not self.intersection(o)

    def __contains__(self, x):
        return bool(self.intersection([x]))

    def update(self, xs):
        self.xs += list(xs)

    def add(self, x):
        self.xs.append(x)

    def _no(self, *a, **k):
        raise Unsupported('operation on a set of symbolic strings')
    __iter__ = __len__ = pop = union = __or__ = __sub__ = __eq__ = remove = discard = _no
    __hash__ = None


class SMeet:
    def __init__(self, eqs):
        self.eqs = eqs

    def __bool__(self):
        return core.cur().branch(z3.Or(*self.eqs) if self.eqs else z3.BoolVal(False))


_uf = {}


def uf(name, t):
    if name not in _uf:
        _uf[name] = z3.Function('lib_str_' + name, z3.StringSort(), z3.StringSort())
    return _uf[name](t)


def st(x):
    if isinstance(x, SStr):
        return x.t if x.t.sort() == z3.StringSort() else z3.Function('lib_str_of', x.t.sort(), z3.StringSort())(x.t)
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported('string operand %r' % type(x))


def has_sym(b):
    if isinstance(b, (SStr, SNum)):
        return True
    if isinstance(b, tuple):
        return any(has_sym(x) for x in b)
    return False


def int_to_str(x):
    return SStr(z3.If(x.t >= 0, z3.IntToStr(x.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.t))))


def format_percent(fmt, args):
    if not isinstance(args, tuple):
        args = (args,)
    out = []
    i = k = 0
    buf = ''
    while i < len(fmt):
        ch = fmt[i]
        if ch != '%':
            buf += ch
            i += 1
            continue
        spec = fmt[i + 1]
        if spec == '%':
            buf += '%'
            i += 2
            continue
        if spec not in 'sdi':
            raise Unsupported('format %s of a symbolic value' % spec)
        a = args[k]
        k += 1
        if isinstance(a, SNum):
            if not a.is_int:
                raise Unsupported('formatting a symbolic real')
            a = int_to_str(a)
        elif not isinstance(a, (SStr, str)):
            a = str(a)
        if buf:
            out.append(z3.StringVal(buf))
            buf = ''
        out.append(st(a))
        i += 2
    if buf:
        out.append(z3.StringVal(buf))
    if len(out) == 1:
        return SStr(out[0])
    return SStr(z3.Concat(*out))


def join(s, xs):
    from .arr import SList
    if isinstance(xs, SList):
        raise Unsupported('join of a symbolic list')
    xs = list(xs)
    if not any(isinstance(x, SStr) for x in xs) and not isinstance(s, SStr):
        return s.join(xs)
    out = []
    for k, x in enumerate(xs):
        if k:
            out.append(st(s))
        out.append(st(x))
    if not out:
        return ''
    return SStr(out[0]) if len(out) == 1 else SStr(z3.Concat(*out))
