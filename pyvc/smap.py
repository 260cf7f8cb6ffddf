"""maps with symbolic keys (z3 arrays): finite maps of Python dictionaries used by get, [], in, store, del"""
import z3

from . import core
from .core import cur, Unsupported, SNum
from .sstr import SStr


def term(k, sort=None):
    if isinstance(k, str) and sort is not None and sort != z3.StringSort():
        from .ustr import TEXT, lit
        if sort == TEXT:
            return lit(k)
    if (isinstance(k, list) or type(k).__name__ == 'SList') and isinstance(sort, z3.SeqSortRef):
        return CList.of(k, sort)
    if isinstance(k, CList):
        k.frozen = True
        return k.t
    if isinstance(k, (SStr, SNum)):
        return k.t
    if isinstance(k, str):
        return z3.StringVal(k)
    t = getattr(k, 'term', None)
    if t is None:
        raise Unsupported('key or value %r of a symbolic map' % type(k))
    return t


class SMap:
    def __init__(self, ks, vs, dec=None, empty=False, has=None, val=None):
        from .arr import SArr
        ctx = cur()
        self.ks, self.vs, self.dec = ks, vs, dec or SStr
        if empty:
            self.has = z3.K(ks, z3.BoolVal(False))
        else:
            self.has = ctx.fresh('map_has', z3.ArraySort(ks, z3.BoolSort())) if has is None else has
        self.val = ctx.fresh('map_val', z3.ArraySort(ks, vs)) if val is None else val
        SArr.count += 1
        self.serial = SArr.count

    def _key(self, k):
        t = term(k, self.ks)
        if t.sort() != self.ks:
            raise Unsupported('key of another kind in a symbolic map')
        return t

    def __contains__(self, k):
        if k is None:
            return False
        return cur().branch(z3.Select(self.has, self._key(k)))

    def __getitem__(self, k):
        t = self._key(k)
        if not cur().branch(z3.Select(self.has, t)):
            raise KeyError(k)
        return self.dec(z3.Select(self.val, t))

    def get(self, k, default=None):
        if k is None:
            return default
        t = self._key(k)
        return self.dec(z3.Select(self.val, t)) if cur().branch(z3.Select(self.has, t)) else default

    def _write(self):
        ctx = cur()
        if ctx.generic:
            raise Unsupported('store in a symbolic map in a generic iteration')
        for w in ctx.watch:
            w(self)

    def __setitem__(self, k, v):
        t, v = self._key(k), term(v, self.vs)
        if v.sort() != self.vs:
            raise Unsupported('value of another kind in a symbolic map')
        self._write()
        self.has = z3.Store(self.has, t, z3.BoolVal(True))
        self.val = z3.Store(self.val, t, v)

    def __delitem__(self, k):
        t = self._key(k)
        if not cur().branch(z3.Select(self.has, t)):
            raise KeyError(k)
        self._write()
        self.has = z3.Store(self.has, t, z3.BoolVal(False))

    def pop(self, k, *default):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if default:
            return default[0]
        raise KeyError(k)

    def havoc(self):
        ctx = cur()
        self.has = ctx.fresh('map_has', z3.ArraySort(self.ks, z3.BoolSort()))
        self.val = ctx.fresh('map_val', z3.ArraySort(self.ks, self.vs))

    def _no(self, *a, **k):
        raise Unsupported('operation on a symbolic map')
    __iter__ = __len__ = __eq__ = items = keys = values = update = clear = copy = setdefault = popitem = __bool__ = _no
    __hash__ = None


class CList:
    """list of texts as a sequence; not changed any more once it is stored in a map"""

    def __init__(self, t):
        from .arr import SArr
        self.t, self.frozen = t, False
        SArr.count += 1
        self.serial = SArr.count

    @staticmethod
    def of(xs, sort):
        if isinstance(xs, CList):
            return xs.t
        r = z3.Empty(sort)
        for x in xs:
            r = z3.Concat(r, z3.Unit(term(x, sort.basis())))
        return z3.simplify(r)

    def append(self, v):
        ctx = cur()
        if self.frozen or ctx.generic:
            raise Unsupported('append to a list that is shared')
        for w in ctx.watch:
            w(self)
        self.t = z3.Concat(self.t, z3.Unit(term(v, self.t.sort().basis())))

    def __slen__(self):
        return core.wrap(z3.Length(self.t))

    def __bool__(self):
        return cur().branch(z3.Length(self.t) > 0)

    def _no(self, *a, **k):
        raise Unsupported('operation on a symbolic list')
    __iter__ = __len__ = __eq__ = __getitem__ = __add__ = __iadd__ = pop = extend = insert = _no
    __hash__ = None
