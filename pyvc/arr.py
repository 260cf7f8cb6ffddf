"""Symbolic numpy arrays: element functions over symbolic (or concrete) index ranges.

Element access, broadcasting, slicing/mask/gather indexing, views with write-through and in-place
updates are modelled; reductions become canonical sums (poly.make_sum).  Elements are mathematical
integers/reals (no rounding, no overflow).  This module and npshim.py are the assumed contracts of numpy.
"""
import itertools

import numpy as np
import z3

from . import core, poly
from .core import SNum, SBool, Unsupported, cur, lift, wrap, real, numeric

I = z3.IntVal
SORT = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}


def zint(n):
    t = lift(n)
    if not z3.is_expr(t) or t.sort() != z3.IntSort():
        raise Unsupported('non-integer dimension')
    return z3.simplify(t)


def const_int(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


class Axis:
    """plain axis: coordinate == position, 0<=position<n.   masked axis: the coordinates c in [0,pn) with
    mask(c), in increasing order; n is their number."""
    __slots__ = ('n', 'mask', 'pn', 'sel', 'key', 'cuts', 'rank')

    def __init__(self, n, mask=None, pn=None, sel=None, key=None, cuts=None):
        self.n = n
        self.mask = mask
        self.pn = pn
        self.sel = sel
        self.key = key
        self.cuts = cuts

    def coord(self, pos):
        return pos if self.mask is None else self.sel(pos)


_sel_cache = {}


def masked_axis(pn, maskfn):
    ctx = cur()
    i = poly.BV
    body = z3.simplify(maskfn(i))
    no_generic(body, pn)
    key = (z3.simplify(pn).sexpr(), body.sexpr())
    cache = ctx.__dict__.setdefault('sels', {})
    if key in cache:
        return cache[key]
    sel = ctx.fresh_fn('lib_sel', z3.IntSort(), z3.IntSort())
    cnt = poly.make_sum(pn, lambda c: z3.If(maskfn(c), I(1), I(0)))
    p, q = z3.Ints('__p __q')
    ctx.axiom(('sel', key),
              z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < cnt),
                                        z3.And(sel(p) >= 0, sel(p) < pn, maskfn(sel(p)))), patterns=[sel(p)]),
              z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < cnt), sel(p) < sel(q)),
                        patterns=[z3.MultiPattern(sel(p), sel(q))]),
              cnt >= 0, cnt <= pn)
    a = Axis(cnt, maskfn, pn, sel, key)
    cache[key] = a
    return a


def plain(n):
    return Axis(zint(n))


def same(n1, n2):
    """are two lengths provably equal"""
    if n1.eq(n2):
        return True
    d = z3.simplify(n1 - n2)
    if z3.is_int_value(d):
        return d.as_long() == 0
    if not poly.padd(poly.poly(n1), poly.poly(n2), -1):
        return True
    return None


def require_same(n1, n2):
    s = same(n1, n2)
    if s is None:
        s = cur().branch(n1 == n2)
    if not s:
        raise ValueError('operands could not be broadcast together')


def conv(t, kind):
    if kind == 'r':
        return real(numeric(t))
    if kind == 'i':
        if z3.is_bool(t):
            return numeric(t)
        return core.trunc(t)
    if kind == 'b':
        return t if z3.is_bool(t) else t != 0
    raise Unsupported(kind)


def kind_of(t):
    if z3.is_bool(t):
        return 'b'
    if t.sort() == z3.IntSort():
        return 'i'
    if t.sort() == z3.RealSort():
        return 'r'
    raise Unsupported('element sort')


def join(*ks):
    if 'r' in ks:
        return 'r'
    if 'i' in ks:
        return 'i'
    return 'b'


def dtype_kind(dt):
    if dt is None:
        return None
    if getattr(dt, '__name__', '') == 'F64':
        return 'r'
    if dt in (int, 'int') or dt is np.int64 or dt is np.int32:
        return 'i'
    if dt in (float, 'float', 'd') or dt is np.float64:
        return 'r'
    if dt is bool:
        return 'b'
    k = np.dtype(dt).kind
    return {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}[k]


class SArr:
    __array_ufunc__ = None
    __array_priority__ = 1000

    count = 0

    def __init__(self, axes, fn, kind, base=None, vidx=None):
        SArr.count += 1
        self.serial = SArr.count
        self.axes = list(axes)
        self._fn = fn
        self.kind = kind
        self.base = base
        self.vidx = vidx
        self.frozen = False     # shares memory with a reshaped array: reads only

    # ---------------------------------------------------------------- reading
    @property
    def fn(self):
        """element as a function of coordinates; for views reads through to the base now"""
        if self.base is None:
            return self._fn
        bf = self.base.fn
        vidx = self.vidx

        def f(*c):
            return bf(*[v[1] if v[0] == 'i' else core.add(v[1], core.mul(I(v[2]), c[v[3]])) for v in vidx])
        return f

    def elem(self, *pos):
        pos = [lift(p) for p in pos]
        return self.fn(*[a.coord(p) for a, p in zip(self.axes, pos)])

    @property
    def shape(self):
        return tuple(wrap(a.n) for a in self.axes)

    @property
    def ndim(self):
        return len(self.axes)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        return np.dtype({'r': float, 'i': int, 'b': bool}[self.kind])

    def nonmask(self):
        """same array with plain axes only"""
        if all(a.mask is None for a in self.axes):
            return self
        f, axes = self.fn, self.axes
        return SArr([Axis(a.n) for a in axes], lambda *p: f(*[a.coord(q) for a, q in zip(axes, p)]), self.kind)

    def copy(self, order=None):
        return SArr(self.axes, self.fn, self.kind)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True):
        k = dtype_kind(dt)
        f = self.fn
        return SArr(self.axes, lambda *c: conv(f(*c), k), k)

    def __len__(self):
        c = const_int(self.axes[0].n)
        if c is None:
            raise Unsupported('len() of a symbolic array outside the shim')
        return c

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __bool__(self):
        if not self.axes:
            return bool(wrap(conv(self.fn(), 'b')))
        if const_int(self.size_t()) == 1:
            return bool(wrap(conv(self.elem(*[0] * self.ndim), 'b')))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def size_t(self):
        r = I(1)
        for a in self.axes:
            r = core.mul(r, a.n)
        return r

    def item(self):
        return wrap(self.elem(*[0] * self.ndim))

    def tolist(self):
        if self.ndim == 1:
            return [x for x in self]
        return [x.tolist() for x in self]

    # ---------------------------------------------------------------- indexing
    def _index(self, idx):
        """parse an index: returns list of per-axis entries and output axes.
        entries: ('i', term) | ('s', start, step, outaxis) | ('m', maskarr, outaxis) | ('g', intarr, outaxis)"""
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = [as_arr(x) if isinstance(x, (np.ndarray, list)) else x for x in idx]
        nreal = sum(1 for x in idx if x is not None and x is not Ellipsis)
        for x in idx:
            if isinstance(x, SArr) and x.kind == 'b' and x.ndim > 1:
                raise Unsupported('multi-dimensional mask index')
        if Ellipsis in [x for x in idx if not isinstance(x, (SArr, SNum, SBool))]:
            k = [j for j, x in enumerate(idx) if x is Ellipsis][0]
            idx[k:k + 1] = [slice(None)] * (self.ndim - nreal)
        else:
            idx += [slice(None)] * (self.ndim - nreal)
        if nreal > self.ndim:
            raise IndexError('too many indices for array')
        entries, out = [], []
        ax = iter(self.axes)
        for x in idx:
            if x is None:
                out.append(Axis(I(1)))
                continue
            a = next(ax)
            if isinstance(x, slice):
                st, n, step = slice_range(x, a.n)
                entries.append(('s', st, step, len(out)))
                if const_int(st) == 0 and step == 1 and n.eq(a.n):
                    out.append(a)
                else:
                    out.append(Axis(n))
            elif isinstance(x, SArr):
                if x.kind == 'b':
                    entries.append(('m', x, len(out)))
                    out.append(None)
                elif x.ndim == 0:
                    entries.append(('i', norm_index(x.fn(), a.n)))
                else:
                    entries.append(('g', x, len(out)))
                    if x.ndim != 1:
                        raise Unsupported('gather with 2d index')
                    out.append(None)
            else:
                entries.append(('i', norm_index(zint_idx(x), a.n)))
        return entries, out

    def __getitem__(self, idx):
        if isinstance(idx, tuple) and len(idx) == self.ndim > 1 and all(
                isinstance(x, np.ndarray) and x.dtype.kind in 'iu' and x.ndim == self.ndim and x.size == x.shape[k]
                for k, x in enumerate(idx)):
            idx = Ix([as_arr(x.reshape(-1)) for x in idx])     # open mesh of np.ix_
        if isinstance(idx, Ix):
            arrs = idx.arrs
            f = self.nonmask().fn
            nn = [check_indices(ia, a.n) for a, ia in zip(self.axes, arrs)]
            fs = [ia.nonmask().fn for ia in arrs]
            ns = [a.n for a in self.axes]
            return SArr([Axis(ia.axes[0].n) for ia in arrs],
                        lambda *p: f(*[neg_index(g(q), n, z) for g, q, n, z in zip(fs, p, ns, nn)]), self.kind)
        entries, out = self._index(idx)
        fancy = [e for e in entries if e[0] in 'mg']
        if not fancy:
            if not out:
                return wrap(self.elem(*[e[1] for e in entries]))
            # a view
            if all(a.mask is None for a in self.axes) or all(
                    a.mask is None or (e[0] == 's' and out[e[3]] is a) for a, e in zip(self.axes, entries)):
                if self.base is None:
                    return SArr(out, None, self.kind, base=self, vidx=entries)
                comp = []
                for v in self.vidx:
                    if v[0] == 'i':
                        comp.append(v)
                    else:
                        e = entries[v[3]]
                        if e[0] == 'i':
                            comp.append(('i', core.add(v[1], core.mul(I(v[2]), e[1]))))
                        else:
                            comp.append(('s', core.add(v[1], core.mul(I(v[2]), e[1])), v[2] * e[2], e[3]))
                return SArr(out, None, self.kind, base=self.base, vidx=comp)
            f, axes = self.fn, self.axes

            def g(*c):
                cc = []
                for a, e in zip(axes, entries):
                    if e[0] == 'i':
                        cc.append(a.coord(e[1]))
                    elif out[e[3]] is a:
                        cc.append(c[e[3]])
                    else:
                        cc.append(a.coord(core.add(e[1], core.mul(I(e[2]), c[e[3]]))))
                return f(*cc)
            return SArr(out, g, self.kind)
        if len(fancy) > 1:
            return self._pairwise(entries, out)
        f, axes = self.fn, self.axes
        (kind, ia, o), = fancy
        src = axes[[k for k, e in enumerate(entries) if e[0] in 'mg'][0]]
        if kind == 'm':
            require_same(ia.axes[0].n, src.n)
            k = const_int(src.n)
            if k is not None:
                m = ia.nonmask().fn
                chosen = [j for j in range(k) if cur().branch(m(I(j)))]
                out[o] = Axis(I(len(chosen)))
                cmap = pick(chosen)
            else:
                if src.mask is not None:
                    if ia.axes[0].mask is None or ia.axes[0].key != src.key:
                        raise Unsupported('plain mask on a masked axis')
                    mf, m0 = ia.fn, src.mask
                    out[o] = masked_axis(src.pn, lambda c: z3.And(m0(c), mf(c)))
                else:
                    mi = ia.nonmask()
                    out[o] = masked_axis(src.n, mi.fn)
                cmap = None
        else:
            nn = check_indices(ia, src.n)
            gi = ia.nonmask().fn
            out[o] = Axis(ia.axes[0].n)
            cmap = (lambda p, gi=gi, n=src.n, nn=nn: src.coord(neg_index(gi(p), n, nn)))

        def h(*c):
            cc = []
            for a, e in zip(axes, entries):
                if e[0] == 'i':
                    cc.append(a.coord(e[1]))
                elif e[0] == 's':
                    if out[e[3]] is a:
                        cc.append(c[e[3]])
                    else:
                        cc.append(a.coord(core.add(e[1], core.mul(I(e[2]), c[e[3]]))))
                else:
                    cc.append(c[e[2]] if cmap is None else cmap(c[e[2]]))
            return f(*cc)
        return SArr(out, h, self.kind)

    def _pairwise(self, entries, out):
        if any(e[0] != 'g' for e in entries):
            raise Unsupported('mixed fancy indexing')
        f = self.nonmask().fn
        fs = [e[1].nonmask().fn for e in entries]
        nn = []
        for e, a in zip(entries, self.axes):
            nn.append(check_indices(e[1], a.n))
            require_same(e[1].axes[0].n, entries[0][1].axes[0].n)
        ns = [a.n for a in self.axes]
        return SArr([Axis(entries[0][1].axes[0].n)],
                    lambda p: f(*[neg_index(g(p), n, z) for g, n, z in zip(fs, ns, nn)]), self.kind)

    def __setitem__(self, idx, val):
        if self.base is not None:
            # compose with the view
            entries, out = self._index(idx)
            if any(e[0] in 'mg' for e in entries):
                raise Unsupported('fancy assignment to a view')
            comp = []
            for v in self.vidx:
                if v[0] == 'i':
                    comp.append(v)
                else:
                    e = entries[v[3]]
                    if e[0] == 'i':
                        comp.append(('i', core.add(v[1], core.mul(I(v[2]), e[1]))))
                    else:
                        comp.append(('s', core.add(v[1], core.mul(I(v[2]), e[1])), v[2] * e[2], e[3]))
            self.base._assign(comp, out, val)
            return
        entries, out = self._index(idx)
        self._assign(entries, out, val)

    def _assign(self, entries, out, val):
        if self.frozen:
            raise Unsupported('write to an array that was reshaped')
        if any(a.mask is not None for a in self.axes):
            p = self.nonmask()
            self.axes, self._fn = p.axes, p._fn
        for k, e in enumerate(entries):
            if e[0] == 'm':
                require_same(e[1].axes[0].n, self.axes[k].n)
                if isinstance(val, (SArr, np.ndarray)) and as_arr(val).ndim:
                    raise Unsupported('masked assignment of an array')
                out[e[2]] = self.axes[k]
            elif e[0] == 'g':
                check_indices(e[1], self.axes[k].n)
                out[e[2]] = Axis(e[1].axes[0].n)
        v = as_arr(val)
        v = v.nonmask()
        if v.ndim:
            v = broadcast_to(v, out)
        old, kind, vf, vk = self._fn, self.kind, v.fn, v.ndim
        nout = len(out)
        ns = [a.n for a in self.axes]
        gathers = [(k, e) for k, e in enumerate(entries) if e[0] == 'g']
        if gathers:
            if len(gathers) > 1 or const_int(gathers[0][1][1].axes[0].n) is None:
                raise Unsupported('gather assignment')
            k, e = gathers[0]
            for j in range(const_int(e[1].axes[0].n)):
                ent2 = list(entries)
                ent2[k] = ('i', norm_index(e[1].elem(I(j)), ns[k]))
                o2 = [a for q, a in enumerate(out) if q != e[2]]
                ent2 = [x if x[0] != 's' or x[3] < e[2] else ('s', x[1], x[2], x[3] - 1) for x in ent2]
                val2 = v if not v.ndim else v[tuple([slice(None)] * e[2] + [j])]
                self._assign(ent2, o2, val2)
            return

        def f(*c):
            conds = []
            oc = [I(0)] * nout
            for k, e in enumerate(entries):
                if e[0] == 'i':
                    conds.append(z3.simplify(c[k] == e[1]))
                elif e[0] == 'm':
                    conds.append(e[1].nonmask().fn(c[k]))
                    oc[e[2]] = c[k]
                else:
                    st, step = e[1], e[2]
                    n = out[e[3]].n
                    if step == 1:
                        d = z3.simplify(core.sub(c[k], st))
                    else:
                        raise Unsupported('strided assignment')
                    if not (const_int(st) == 0 and n.eq(ns[k])):
                        conds.append(z3.simplify(z3.And(d >= 0, d < n)))
                    oc[e[3]] = d
            if any(z3.is_false(x) for x in conds):
                return old(*c)
            cond = z3.simplify(z3.And(*conds)) if conds else z3.BoolVal(True)
            new = conv(vf(*oc) if vk else vf(), kind)
            return new if z3.is_true(cond) else core.ite(cond, new, old(*c))
        pre_write(self)
        self._fn = memo(f)

    # ---------------------------------------------------------------- elementwise
    def _bin(op, swap=False, cmp=None):
        def m(self, o):
            if o is None or isinstance(o, str):
                if cmp == '==':
                    return False
                if cmp == '!=':
                    return True
                return NotImplemented
            a, b = self, as_arr(o)
            if swap:
                a, b = b, a
            r = elementwise(op, a, b)
            return r if r.axes else wrap(r.fn())
        return m

    __add__, __radd__ = _bin(core.add), _bin(core.add, True)
    __sub__, __rsub__ = _bin(core.sub), _bin(core.sub, True)
    __mul__, __rmul__ = _bin(core.mul), _bin(core.mul, True)
    __truediv__, __rtruediv__ = _bin(core.div), _bin(core.div, True)
    __floordiv__, __rfloordiv__ = _bin(core.floordiv), _bin(core.floordiv, True)
    __mod__ = _bin(core.mod)
    __pow__ = _bin(core.power)
    __eq__ = _bin(lambda a, b: core.compare('==', a, b), cmp='==')
    __ne__ = _bin(lambda a, b: core.compare('!=', a, b), cmp='!=')
    __lt__ = _bin(lambda a, b: core.compare('<', a, b))
    __le__ = _bin(lambda a, b: core.compare('<=', a, b))
    __gt__ = _bin(lambda a, b: core.compare('>', a, b))
    __ge__ = _bin(lambda a, b: core.compare('>=', a, b))
    __and__ = _bin(lambda a, b: z3.And(a, b))
    __or__ = _bin(lambda a, b: z3.Or(a, b))
    __rand__ = __and__
    __ror__ = __or__
    del _bin
    __hash__ = object.__hash__

    def __invert__(self):
        if self.kind != 'b':
            raise Unsupported('~ of a non-bool array')
        return self.map(z3.Not, 'b')

    def __neg__(self):
        return self.map(lambda t: -numeric(t), join(self.kind, 'i'))

    def __abs__(self):
        return self.map(lambda t: z3.If(t >= 0, t, -t), self.kind)

    def map(self, g, kind):
        f = self.fn
        return SArr(self.axes, memo(lambda *c: g(f(*c))), kind)

    def _inplace(op):
        def m(self, o):
            r = elementwise(op, self, as_arr(o))
            if self.kind in 'ib' and r.kind == 'r':
                raise np.core._exceptions._UFuncOutputCastingError(
                    np.add, 'same_kind', np.dtype(float), np.dtype(int), 0)
            if len(r.axes) != len(self.axes):
                raise ValueError('non-broadcastable output operand')
            if self.base is not None:
                self[(slice(None),) * self.ndim] = r
            else:
                if self.frozen:
                    raise Unsupported('write to an array that was reshaped')
                for x, y in zip(r.axes, self.axes):
                    require_same(x.n, y.n)
                nf = r.fn if r.kind == self.kind else r.astype(self.dtype).fn
                pre_write(self)
                self._fn = nf
                self.axes = r.axes
            return self
        return m

    __iadd__ = _inplace(core.add)
    __isub__ = _inplace(core.sub)
    __imul__ = _inplace(core.mul)
    __itruediv__ = _inplace(core.div)
    __ifloordiv__ = _inplace(core.floordiv)
    __ipow__ = _inplace(core.power)
    del _inplace

    # ---------------------------------------------------------------- shape
    @property
    def T(self):
        return self.transpose()

    def transpose(self, *perm):
        if len(perm) == 1 and isinstance(perm[0], (tuple, list)):
            perm = tuple(perm[0])
        n = self.ndim
        if not perm:
            perm = tuple(reversed(range(n)))
        axes = [self.axes[p] for p in perm]
        inv = [perm.index(k) for k in range(n)]
        if self.base is None:
            return SArr(axes, None, self.kind, base=self, vidx=[('s', I(0), 1, inv[k]) for k in range(n)])
        vid = [v if v[0] == 'i' else ('s', v[1], v[2], inv[v[3]]) for v in self.vidx]
        return SArr(axes, None, self.kind, base=self.base, vidx=vid)

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        if self.ndim == 1 and len(shape) == 2:
            a, b = shape
            one = lambda x: isinstance(x, int) and x == 1
            if one(b):
                return self[:, None]
            if one(a):
                return self[None, :]
        if self.ndim == 1 and len(shape) == 1:
            return self
        if self.ndim == 2 and len(shape) == 1 and shape[0] in (-1,):
            return self.flatten()
        if len(shape) == self.ndim and all(same(zint(s), a.n) for s, a in zip(shape, self.axes) if not (isinstance(s, int) and s == -1)):
            return self
        if self.ndim == 1 and len(shape) == 2 and all(isinstance(x, (int, np.integer, SNum)) for x in shape) \
                and not any(isinstance(x, (int, np.integer)) and x < 0 for x in shape):
            a, b = [zint(x) for x in shape]
            p = self.nonmask()
            n = p.axes[0].n
            if not (same(core.mul(a, b), n) or cur().branch(core.mul(a, b) == n)):
                raise ValueError('cannot reshape array')
            q = self
            while q is not None:
                q.frozen = True
                q = q.base
            f = p.fn
            r = SArr([Axis(a), Axis(b)], lambda i, j: f(core.add(core.mul(i, b), j)), self.kind)
            r.frozen = True
            return r
        raise Unsupported('reshape')

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        ns = [const_int(a.n) for a in self.axes]
        if None in ns:
            raise Unsupported('flatten of a symbolic array')
        vals = [self.elem(*c) for c in itertools.product(*[range(n) for n in ns])]
        return from_list([wrap(v) for v in vals])

    ravel = flatten

    def squeeze(self):
        keep = [k for k, a in enumerate(self.axes) if const_int(a.n) != 1]
        idx = tuple(slice(None) if k in keep else 0 for k in range(self.ndim))
        return self[idx]

    def diagonal(self):
        if self.ndim != 2:
            raise Unsupported('diagonal')
        require_same(self.axes[0].n, self.axes[1].n)
        p = self.nonmask()
        f = p.fn
        return SArr([p.axes[0]], lambda i: f(i, i), self.kind)

    # ---------------------------------------------------------------- reductions
    def sum(self, axis=None, dtype=None, keepdims=False, out=None):
        if axis is None:
            r = self
            for _ in range(self.ndim):
                r = asum(r, len(r.axes) - 1) if isinstance(r, SArr) else r
            return r if not isinstance(r, SArr) else wrap(r.fn())
        if isinstance(axis, tuple):
            raise Unsupported('sum over axes')
        return asum(self, axis % self.ndim)

    def mean(self, axis=None):
        if axis is None:
            return self.sum() / self.size
        return self.sum(axis) / wrap(self.axes[axis].n)

    def dot(self, o):
        return dot(self, o)

    __matmul__ = dot

    def __rmatmul__(self, o):
        return dot(as_arr(o), self)

    def min(self, axis=None):
        return minmax(self, axis, 'min')

    def max(self, axis=None):
        return minmax(self, axis, 'max')

    def all(self):
        return aall(self)

    def any(self):
        return ~aall(~self) if isinstance(aall(~self), SBool) else not aall(~self)

    def argsort(self, *a, **k):
        from . import npshim
        return npshim.argsort(self)

    def cumsum(self):
        from . import npshim
        return npshim.cumsum(self)

    def __repr__(self):
        return 'SArr(%s,%s)' % (','.join(str(a.n)[:20] for a in self.axes), self.kind)

    __str__ = None

    def __str__(self):
        raise Unsupported('formatting a symbolic array')


def pre_write(a):
    for g in cur().generic:
        g.before_write(a)
    for w in cur().watch:
        w(a)


def no_generic(*terms):
    """library results introduced as constants may not depend on the index of a generic iteration"""
    for g in cur().generic:
        for t in terms:
            if poly.occurs(t, g.var.get_id()):
                raise Unsupported('library result inside a symbolic loop depends on the loop index')


class Ix:
    def __init__(self, arrs):
        self.arrs = arrs


def memo(f):
    cache = {}

    def g(*c):
        k = tuple(x.get_id() for x in c)
        r = cache.get(k)
        if r is None:
            r = f(*c)
            cache[k] = (r, c)
            return r
        return r[0]
    return g


def pick(chosen):
    def m(p):
        c = const_int(p)
        if c is not None and 0 <= c < len(chosen):
            return I(chosen[c])
        r = I(chosen[-1]) if chosen else I(0)
        for j in range(len(chosen) - 2, -1, -1):
            r = z3.If(p == j, I(chosen[j]), r)
        return r
    return m


def zint_idx(x):
    if isinstance(x, (bool, SBool)):
        raise Unsupported('boolean scalar index')
    if isinstance(x, (int, np.integer)):
        return I(int(x))
    if isinstance(x, SNum):
        if not x.is_int:
            raise IndexError('only integers are valid indices')
        return x.t
    if isinstance(x, (float, str)) or x is None:
        raise IndexError('only integers, slices... are valid indices')
    raise Unsupported('index %r' % type(x))


def neg_index(i, n, nonneg=False):
    c = const_int(i)
    if c is not None:
        return i if c >= 0 else z3.simplify(n + i)
    if nonneg or z3.is_app(i) and i.decl().name().startswith('lib_'):
        return i
    ctx = cur()
    if i.get_id() in ctx.inrange:
        return i
    if ctx.entails(i >= 0, 300):
        return i
    return z3.If(i >= 0, i, i + n)


def norm_index(i, n):
    """python index -> non-negative, raising IndexError exactly when numpy does"""
    ctx = cur()
    ok = z3.simplify(z3.And(i < n, i >= -n))
    if not (z3.is_true(ok) or ctx.branch(ok)):
        raise IndexError('index out of bounds')
    c = const_int(i)
    if c is not None:
        return i if c >= 0 else z3.simplify(n + i)
    if ctx.branch(i >= 0):
        return i
    return z3.simplify(n + i)


def check_indices(ia, n):
    """all entries of an index array are within bounds, else IndexError (as numpy)"""
    if ia.kind != 'i':
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    ctx = cur()
    k = const_int(ia.axes[0].n)
    f = ia.nonmask().fn
    if k is not None:
        for j in range(k):
            t = f(I(j))
            if not ctx.branch(z3.And(t < n, t >= -n)):
                raise IndexError('index out of bounds')
        return False
    j = ctx.index('g')
    t = f(j)
    inside = z3.And(j >= 0, j < ia.axes[0].n)
    if ctx.entails(z3.Implies(inside, z3.And(t < n, t >= 0)), 2000):
        return True
    g = z3.Implies(inside, z3.And(t < n, t >= -n))
    if not ctx.entails(g, 4000):
        raise Unsupported('cannot establish that all gather indices are in bounds')
    return False


def slice_range(s, n):
    step = 1 if s.step is None else s.step
    if not isinstance(step, int) or step == 0:
        raise Unsupported('symbolic slice step')
    ctx = cur()

    def clip(x, default):
        if x is None:
            return default
        t = zint_idx(x)
        c, cn = const_int(t), const_int(n)
        if c is not None and cn is not None:
            return I(max(0, min(cn, c + cn if c < 0 else c)))
        if c is not None and c >= 0:
            if c == 0:
                return t
            return t if ctx.entails(t <= n, 500) else z3.If(t <= n, t, n)
        if ctx.entails(t < 0, 500):
            u = z3.simplify(t + n)
            return u if ctx.entails(u >= 0, 500) else z3.If(u >= 0, u, I(0))
        if ctx.entails(z3.And(t >= 0, t <= n), 500):
            return t
        u = z3.If(t < 0, t + n, t)
        return z3.If(u < 0, I(0), z3.If(u > n, n, u))
    if step > 0:
        st = clip(s.start, I(0))
        en = clip(s.stop, n)
        d = z3.simplify(en - st)
        if const_int(d) is not None:
            ln = I(max(0, const_int(d)))
        elif ctx.entails(d >= 0, 500):
            ln = d
        else:
            ln = z3.If(d >= 0, d, I(0))
        if step > 1:
            ln = z3.simplify((ln + (step - 1)) / step)
        return st, z3.simplify(ln), step
    if step == -1 and s.start is None and s.stop is None:
        return z3.simplify(n - 1), n, -1
    raise Unsupported('negative slice step')


def from_list(xs):
    """1d array (or 2d if elements are arrays) from python list"""
    xs = list(xs)
    if xs and isinstance(xs[0], (SArr, np.ndarray, list, tuple)):
        rows = [as_arr(x) for x in xs]
        for r in rows[1:]:
            for a, b in zip(r.axes, rows[0].axes):
                require_same(a.n, b.n)
        kind = join(*[r.kind for r in rows])
        pl = [r.nonmask() for r in rows]
        keep_mask = all(len(r.axes) == 1 and r.axes[0].mask is not None and r.axes[0].key == rows[0].axes[0].key
                        for r in rows) if rows[0].ndim == 1 else False
        fs = [r.fn for r in (rows if keep_mask else pl)]

        def f(i, *c):
            k = const_int(i)
            if k is not None:
                return conv(fs[k](*c), kind)
            r = conv(fs[-1](*c), kind)
            for j in range(len(fs) - 2, -1, -1):
                r = core.ite(i == j, conv(fs[j](*c), kind), r)
            return r
        return SArr([Axis(I(len(xs)))] + (rows[0].axes if keep_mask else pl[0].axes), memo(f), kind)
    ts = [lift(x) for x in xs]
    kind = join(*[kind_of(t) for t in ts]) if ts else 'r'
    ts = [conv(t, kind) for t in ts]

    def f(i):
        k = const_int(i)
        if k is not None:
            return ts[k]
        r = ts[-1]
        for j in range(len(ts) - 2, -1, -1):
            r = core.ite(i == j, ts[j], r)
        return r
    return SArr([Axis(I(len(ts)))], f, kind)


def as_arr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SList):
        return x.to_arr()
    if isinstance(x, (SNum, SBool, int, float, bool)) or isinstance(x, (np.generic,)) or type(x).__name__ == 'Fraction':
        t = lift(x)
        return SArr([], lambda: t, kind_of(t))
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return from_list(list(x)) if x.ndim == 1 else from_list([list(r) for r in x])
        if x.ndim == 0:
            return as_arr(x.item())
        kind = {'f': 'r', 'i': 'i', 'u': 'i', 'b': 'b'}[x.dtype.kind]

        def f(*c):
            ks = [const_int(i) for i in c]
            if None not in ks:
                return conv(lift(x[tuple(ks)].item()), kind)
            if x.ndim == 1:
                r = conv(lift(x[-1].item()), kind)
                for j in range(len(x) - 2, -1, -1):
                    r = core.ite(c[0] == j, conv(lift(x[j].item()), kind), r)
                return r
            raise Unsupported('symbolic index into a concrete 2d array')
        return SArr([Axis(I(n)) for n in x.shape], f, kind)
    if isinstance(x, (list, tuple)):
        return from_list(x)
    raise Unsupported('cannot make an array of %r' % type(x))


def broadcast_axes(arrs):
    nd = max(a.ndim for a in arrs)
    axes = []
    for k in range(nd):
        best = None
        for a in arrs:
            j = k - (nd - a.ndim)
            if j < 0:
                continue
            ax = a.axes[j]
            if best is None or const_int(best.n) == 1:
                best = ax
            elif const_int(ax.n) == 1:
                pass
            else:
                require_same(best.n, ax.n)
                if best.mask is not None and (ax.mask is None or ax.key != best.key):
                    best = Axis(best.n)
                elif best.mask is None and ax.mask is not None:
                    best = Axis(best.n)
        axes.append(best)
    return axes


def align(a, axes):
    """coordinate function of a over the (broadcast) axes"""
    off = len(axes) - a.ndim
    f = a.fn
    tr = []
    for j, ax in enumerate(a.axes):
        t = axes[off + j]
        if const_int(ax.n) == 1 and const_int(t.n) != 1:
            tr.append((0, None))
        elif ax.mask is not None and t.mask is None:
            tr.append((2, ax))
        else:
            tr.append((1, None))

    def g(*c):
        cc = []
        for j, (k, ax) in enumerate(tr):
            if k == 0:
                cc.append(I(0) if a.axes[j].mask is None else a.axes[j].coord(I(0)))
            elif k == 2:
                cc.append(ax.coord(c[off + j]))
            else:
                cc.append(c[off + j])
        return f(*cc)
    return g


def elementwise(op, *arrs):
    axes = broadcast_axes(arrs)
    fs = [align(a, axes) for a in arrs]
    f = memo(lambda *c: op(*[g(*c) for g in fs]))
    probe = [z3.Const('__c%d' % k, z3.IntSort()) for k in range(len(axes))]
    cv = [I(0) if const_int(a.n) is not None else p for a, p in zip(axes, probe)]
    try:
        kind = kind_of(f(*cv))
    except (IndexError, KeyError):
        kind = join(*[a.kind for a in arrs])
    r = SArr(axes, f, kind)
    return r


def broadcast_to(v, out):
    """array v seen over axes out (plain positions)"""
    outp = [Axis(a.n) for a in out]
    nd = len(out)
    if v.ndim > nd:
        # allow leading ones
        while v.ndim > nd and const_int(v.axes[0].n) == 1:
            v = v[0]
    for j, ax in enumerate(v.axes):
        t = outp[nd - v.ndim + j]
        if const_int(ax.n) != 1:
            require_same(ax.n, t.n)
    g = align(v, outp)
    return SArr(outp, g, v.kind)


def asum(a, axis):
    ax = a.axes[axis]
    f = a.fn
    rest = [x for k, x in enumerate(a.axes) if k != axis]
    kind = join(a.kind, 'i')

    def h(*c):
        def body(i):
            t = numeric(f(*(c[:axis] + (i,) + c[axis:])))
            if ax.mask is not None:
                t = z3.If(ax.mask(i), t, I(0) if t.sort() == z3.IntSort() else z3.RealVal(0))
            return t
        n = ax.n if ax.mask is None else ax.pn
        if ax.cuts:
            r = None
            for off, ln in ax.cuts:
                s = poly.make_sum(ln, lambda i: body(z3.simplify(i + off)))
                r = s if r is None else core.add(r, s)
            return conv(r, kind)
        return conv(poly.make_sum(n, body), kind)
    if not rest:
        return wrap(h())
    return SArr(rest, memo(h), kind)


def dot(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 1 and b.ndim == 2:
        require_same(a.axes[0].n, b.axes[0].n)
        return asum(a[:, None] * b, 0)
    if a.ndim == 2 and b.ndim == 1:
        require_same(a.axes[1].n, b.axes[0].n)
        return asum(a * b, 1)
    if a.ndim == 2 and b.ndim == 2:
        require_same(a.axes[1].n, b.axes[0].n)
        return asum(a[:, :, None] * b[None, :, :], 1)
    raise Unsupported('dot')


def minmax(a, axis, which):
    if axis is not None and a.ndim > 1:
        raise Unsupported('min over an axis')
    if a.ndim != 1:
        ns = [const_int(x.n) for x in a.axes]
        if None not in ns:
            a = a.flatten()
        elif a.ndim == 0:
            return wrap(a.fn())
        else:
            raise Unsupported('min of a symbolic 2d array')
    ctx = cur()
    ax = a.axes[0]
    f = a.fn
    le = (lambda x, y: x <= y) if which == 'min' else (lambda x, y: x >= y)
    n = const_int(ax.n)
    if n is not None:
        if n == 0:
            raise ValueError('zero-size array to reduction operation')
        r = a.elem(I(0))
        for j in range(1, n):
            t = a.elem(I(j))
            r = core.ite(le(r, t), r, t)
        return wrap(r)
    if not ctx.branch(ax.n > 0):
        raise ValueError('zero-size array to reduction operation')
    i = z3.Const('__m', z3.IntSort())
    body = z3.simplify(f(i))
    no_generic(body, ax.n)
    key = (which, ax.n.sexpr(), body.sexpr(), ax.key)
    cache = ctx.__dict__.setdefault('mins', {})
    if key not in cache:
        m = ctx.fresh('lib_' + which, body.sort())
        w = ctx.fresh('lib_arg' + which, z3.IntSort())
        rng = lambda c: z3.And(c >= 0, c < (ax.n if ax.mask is None else ax.pn),
                               *([ax.mask(c)] if ax.mask is not None else []))
        ctx.axiom(key, m == f(w), rng(w), z3.ForAll([i], z3.Implies(rng(i), le(m, body))))
        cache[key] = (m, w)
    return wrap(cache[key][0])


def aall(a):
    """all elements true"""
    ctx = cur()
    if a.ndim == 0:
        return wrap(conv(a.fn(), 'b'))
    ns = [const_int(x.n) for x in a.axes]
    if None not in ns:
        ts = [conv(a.elem(*c), 'b') for c in itertools.product(*[range(n) for n in ns])]
        return wrap(z3.And(*ts)) if ts else True
    p = a.nonmask()
    vs = [z3.Const('__a%d' % k, z3.IntSort()) for k in range(a.ndim)]
    rng = [z3.And(v >= 0, v < x.n) for v, x in zip(vs, p.axes)]
    return wrap(z3.ForAll(vs, z3.Implies(z3.And(*rng), conv(p.fn(*vs), 'b'))))


def concat(arrs, axis=0):
    arrs = [as_arr(a) for a in arrs]
    nd = arrs[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    for a in arrs:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
    for a in arrs[1:]:
        for k in range(nd):
            if k != axis:
                require_same(a.axes[k].n, arrs[0].axes[k].n)
    arrs = [SArr([Axis(x.n) if k == axis else x for k, x in enumerate(a.axes)],
                 (lambda a: (lambda f, ax: lambda *c: f(*[ax.coord(q) if k == axis else q for k, q in enumerate(c)]))(
                     a.fn, a.axes[axis]))(a), a.kind) for a in arrs]
    keys = [[x.key for k, x in enumerate(a.axes) if k != axis] for a in arrs]
    if any(k != keys[0] for k in keys):
        arrs = [a.nonmask() for a in arrs]
    kind = join(*[a.kind for a in arrs])
    offs = []
    tot = I(0)
    for a in arrs:
        offs.append(tot)
        tot = z3.simplify(tot + a.axes[axis].n)
    fs = [a.fn for a in arrs]

    def f(*c):
        p = c[axis]
        r = None
        for k in range(len(arrs) - 1, -1, -1):
            cc = list(c)
            cc[axis] = z3.simplify(p - offs[k])
            cond = z3.simplify(p >= offs[k])
            upper = z3.simplify(p < offs[k] + arrs[k].axes[axis].n)
            if const_int(arrs[k].axes[axis].n) == 0:
                continue
            if z3.is_false(cond) or z3.is_false(upper):
                continue
            if r is None:
                r = conv(fs[k](*cc), kind)
            elif z3.is_true(upper):
                r = conv(fs[k](*cc), kind)
            else:
                r = core.ite(upper, conv(fs[k](*cc), kind), r)
        if r is None:
            raise Unsupported('concat access')
        return r
    axes = list(arrs[0].axes)
    axes[axis] = Axis(tot, cuts=[(o, a.axes[axis].n) for o, a in zip(offs, arrs)])
    return SArr(axes, memo(f), kind)


def const_array(shape, t, kind):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    axes = [plain(s) for s in shape]
    for a in axes:
        if const_int(a.n) is None and not cur().entails(a.n >= 0, 500):
            if not cur().branch(a.n >= 0):
                raise ValueError('negative dimensions are not allowed')
    return SArr(axes, lambda *c: t, kind)


def havoc_array(axes, kind, name='h'):
    f = cur().fresh_fn(name, *([z3.IntSort()] * len(axes) + [SORT[kind]]))
    if not axes:
        c = cur().fresh(name, SORT[kind])
        return SArr([], lambda: c, kind)
    return SArr(axes, lambda *c: f(*c), kind)


def either(cond, a, b):
    from .sstr import SStr
    if isinstance(a, SStr) and isinstance(b, SStr) and a.t.sort() == b.t.sort():
        return type(a)(z3.If(cond, a.t, b.t))
    if isinstance(a, SNum) or isinstance(b, SNum):
        return wrap(z3.If(cond, *core.coerce2(lift(a), lift(b))))
    raise Unsupported('element of a list of symbolic length after append')


class SList:
    """list of symbolic length whose elements are given by a function of the index"""

    def __init__(self, n, fn):
        self.n = n
        self.fn = fn
        SArr.count += 1
        self.serial = SArr.count

    def __getitem__(self, i):
        if isinstance(i, slice):
            st, n, step = slice_range(i, self.n)
            f = self.fn
            return SList(n, lambda p: f(core.add(st, core.mul(I(step), p))))
        return self.fn(norm_index(zint_idx(i), self.n))

    def __len__(self):
        c = const_int(self.n)
        if c is None:
            raise Unsupported('len of symbolic list')
        return c

    def __iter__(self):
        for j in range(len(self)):
            yield self.fn(I(j))

    def __bool__(self):
        return cur().branch(self.n > 0)

    def append(self, v):
        ctx = cur()
        f, n = self.fn, self.n
        for w in ctx.watch:
            w(self)
        if ctx.generic:
            raise Unsupported('append in a generic iteration')

        def g(i):
            i = lift(i)
            if ctx.entails(i == n):
                return v
            if ctx.entails(z3.And(i >= 0, i < n)):
                return f(i)
            return either(i == n, v, f(i))
        self.fn, self.n = g, z3.simplify(n + 1)

    def extend(self, o):
        ctx = cur()
        for w in ctx.watch:
            w(self)
        if ctx.generic:
            raise Unsupported('extend in a generic iteration')
        r = self + o
        self.fn, self.n = r.fn, r.n

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        if isinstance(o, list):
            r = SList(self.n, self.fn)
            for x in o:
                r.append(x)
            return r
        if not isinstance(o, SList):
            return NotImplemented
        f, n, h = self.fn, self.n, o.fn

        def g(i):
            i = lift(i)
            if cur().entails(i < n):
                return f(i)
            if cur().entails(i >= n):
                return h(i - n)
            return either(i < n, f(i), h(i - n))
        return SList(z3.simplify(n + o.n), g)

    def to_arr(self):
        j = cur().index('l')
        probe = self.fn(j)
        if isinstance(probe, SArr):
            p = probe
            f = self.fn
            sub = p.axes

            def g(i, *c):
                return f(i).fn(*c)
            return SArr([Axis(self.n)] + sub, g, p.kind)
        t = lift(probe)
        f = self.fn
        return SArr([Axis(self.n)], lambda i: lift(f(i)), kind_of(t))
