"""The numpy seen by the code under verification: real numpy on concrete arguments, assumed contracts on symbolic ones."""
import itertools

import numpy as real_np
import z3

from . import core, poly
from .core import SNum, SBool, Unsupported, cur, lift, wrap
from .arr import (SArr, SList, Axis, Ix, as_arr, from_list, elementwise, concat, const_array, const_int, conv, join,
                  dtype_kind, dot as adot, minmax, aall, asum, plain, require_same, I, havoc_array, memo, kind_of, zint, no_generic)


def symbolic(x, depth=0):
    if isinstance(x, (SArr, SNum, SBool, SList, Ix, FT)):
        return True
    if depth < 3 and isinstance(x, (list, tuple)):
        return any(symbolic(y, depth + 1) for y in x)
    if depth < 3 and isinstance(x, dict):
        return any(symbolic(y, depth + 1) for y in x.values())
    return False


def scalar_or(x, f, kind):
    if isinstance(x, (SNum, SBool)) or type(x).__name__ == 'Fraction':
        return wrap(f(lift(x)))
    a = as_arr(x)
    if a.ndim == 0:
        return wrap(f(a.fn()))
    return a.map(f, kind)


TABLE = {}


def sym(name):
    def d(f):
        TABLE[name] = f
        return f
    return d


for _n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'log10', 'tanh'):
    TABLE[_n] = (lambda nm: lambda x: scalar_or(x, lambda t: core.ufun(nm, t), 'r'))(_n)


@sym('log10')
def log10(x):
    return scalar_or(x, lambda t: core.ufun('log', t) / core.ufun('log', z3.RealVal(10)), 'r')


@sym('square')
def square(x):
    return x * x


@sym('abs')
def abs_(x):
    return abs(x) if not isinstance(x, (list, tuple)) else abs(as_arr(x))


TABLE['absolute'] = abs_


@sym('sign')
def sign(x):
    def f(t):
        z, o = (z3.IntVal(0), z3.IntVal(1)) if t.sort() == z3.IntSort() else (z3.RealVal(0), z3.RealVal(1))
        return z3.If(t > 0, o, z3.If(t < 0, -o, z))
    return scalar_or(x, f, 'r')


@sym('sum')
def sum_(a, axis=None, **k):
    a = as_arr(a)
    if a.ndim == 0:
        return wrap(a.fn())
    return a.sum(axis)


@sym('mean')
def mean(a, axis=None):
    return as_arr(a).mean(axis)


@sym('average')
def average(a, axis=None, weights=None):
    a = as_arr(a)
    if weights is None:
        return a.mean(axis)
    w = as_arr(weights)
    if axis is None or a.ndim == 1:
        return (a * w).sum() / w.sum()
    if axis == 0:
        return adot(w, a) / w.sum()
    raise Unsupported('average axis')


@sym('dot')
def dot(a, b):
    return adot(a, b)


TABLE['matmul'] = dot


@sym('inner')
def inner(a, b):
    a, b = as_arr(a), as_arr(b)
    if a.ndim == 1 and b.ndim == 1:
        return adot(a, b)
    raise Unsupported('inner')


@sym('vdot')
def vdot(a, b):
    return inner(a, b)


@sym('outer')
def outer(a, b):
    a, b = as_arr(a), as_arr(b)
    return a[:, None] * b[None, :]


@sym('einsum')
def einsum(spec, *ops, **kw):
    if kw or not isinstance(spec, str) or '->' not in spec or '.' in spec:
        raise Unsupported('einsum')
    ins, out = spec.replace(' ', '').split('->')
    ins = ins.split(',')
    ops = [as_arr(o) for o in ops]
    axes = {}
    for l, o in zip(ins, ops):
        if len(l) != o.ndim or len(set(l)) != len(l):
            raise Unsupported('einsum')
        for ch, ax in zip(l, o.axes):
            if ax.mask is not None or ax.cuts:
                raise Unsupported('einsum')
            if ch in axes:
                require_same(axes[ch].n, ax.n)
            else:
                axes[ch] = ax
    order = list(out) + [ch for ch in axes if ch not in out]

    def f(*ix):
        at = dict(zip(order, ix))
        r = None
        for l, o in zip(ins, ops):
            t = core.numeric(o.fn(*[at[ch] for ch in l]))
            r = t if r is None else core.mul(r, t)
        return r
    kind = ops[0].kind
    for o in ops[1:]:
        kind = join(kind, o.kind)
    a = SArr([axes[ch] for ch in order], f, kind)
    while a.ndim > len(out):
        a = asum(a, a.ndim - 1)
        if not hasattr(a, 'ndim'):
            return a
    return a


@sym('min')
def min_(a, axis=None):
    return minmax(as_arr(a), axis, 'min')


@sym('max')
def max_(a, axis=None):
    return minmax(as_arr(a), axis, 'max')


TABLE['amin'] = min_
TABLE['amax'] = max_


@sym('all')
def all_(a):
    return aall(as_arr(a))


@sym('any')
def any_(a):
    r = aall(~as_arr(a))
    return wrap(z3.Not(lift(r)))


@sym('minimum')
def minimum(a, b):
    r = elementwise(lambda x, y: core.ite(core.compare('<=', x, y), *core.coerce2(x, y)), as_arr(a), as_arr(b))
    return r if r.axes else wrap(r.fn())


@sym('maximum')
def maximum(a, b):
    r = elementwise(lambda x, y: core.ite(core.compare('>=', x, y), *core.coerce2(x, y)), as_arr(a), as_arr(b))
    return r if r.axes else wrap(r.fn())


@sym('where')
def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    r = elementwise(lambda x, y, z: core.ite(conv(x, 'b'), y, z), as_arr(c), as_arr(a), as_arr(b))
    return r if r.axes else wrap(r.fn())


@sym('nonzero')
def nonzero(c):
    c = as_arr(c)
    if c.ndim != 1:
        raise Unsupported('nonzero nd')
    f = c.fn
    idx = SArr(c.axes, lambda i: i, 'i') if c.axes[0].mask is None else None
    if idx is None:
        raise Unsupported('nonzero masked')
    return (idx[SArr(c.axes, lambda i: conv(f(i), 'b'), 'b')],)


@sym('flatnonzero')
def flatnonzero(c):
    return nonzero(c)[0]


@sym('count_nonzero')
def count_nonzero(c):
    c = as_arr(c)
    return c.map(lambda t: core.numeric(conv(t, 'b')), 'i').sum()


@sym('logical_and')
def logical_and(a, b):
    return as_arr(a) & as_arr(b)


@sym('logical_or')
def logical_or(a, b):
    return as_arr(a) | as_arr(b)


@sym('logical_not')
def logical_not(a):
    return ~as_arr(a)


@sym('hstack')
def hstack(xs):
    if isinstance(xs, SList):
        raise Unsupported('hstack of a symbolic list')
    xs = [as_arr(x) for x in xs]
    xs = [x if x.ndim else from_list([wrap(x.fn())]) for x in xs]
    return concat(xs, 0 if xs[0].ndim == 1 else 1)


@sym('vstack')
def vstack(xs):
    xs = [as_arr(x) for x in xs]
    xs = [x if x.ndim > 1 else x[None, :] for x in xs]
    return concat(xs, 0)


@sym('column_stack')
def column_stack(xs):
    xs = [as_arr(x) for x in xs]
    xs = [x if x.ndim > 1 else x[:, None] for x in xs]
    return concat(xs, 1)


@sym('concatenate')
def concatenate(xs, axis=0):
    return concat(xs, axis)


@sym('append')
def append(a, b, axis=None):
    if axis is None:
        a, b = as_arr(a), as_arr(b)
        return concat([x if x.ndim else from_list([wrap(x.fn())]) for x in (a, b)], 0)
    return concat([a, b], axis)


@sym('atleast_2d')
def atleast_2d(x):
    x = as_arr(x)
    return x[None, :] if x.ndim == 1 else x


@sym('transpose')
def transpose(x, axes=None):
    return as_arr(x).transpose(*(axes or ()))


@sym('array')
def array(x, dtype=None, copy=True):
    a = as_arr(x).copy()
    return a.astype(dtype) if dtype is not None else a


@sym('asarray')
def asarray(x, dtype=None):
    a = as_arr(x)
    if dtype is not None and dtype_kind(dtype) != a.kind:
        return a.astype(dtype)
    return a


TABLE['ascontiguousarray'] = asarray
TABLE['atleast_1d'] = lambda x: as_arr(x) if as_arr(x).ndim else from_list([x])


@sym('copy')
def copy(x):
    return as_arr(x).copy()


@sym('diag')
def diag(x):
    x = as_arr(x)
    if x.ndim == 2:
        return x.diagonal()
    f = x.nonmask().fn
    z = z3.RealVal(0) if x.kind == 'r' else I(0)
    return SArr([Axis(x.axes[0].n), Axis(x.axes[0].n)], lambda i, j: core.ite(z3.simplify(i == j), f(i), z), x.kind)


@sym('diagonal')
def diagonal(x):
    return as_arr(x).diagonal()


@sym('trace')
def trace(x):
    return as_arr(x).diagonal().sum()


@sym('ix_')
def ix_(*arrs):
    return Ix([as_arr(a) for a in arrs])


@sym('isfinite')
def isfinite(x):
    return scalar_or(x, lambda t: z3.BoolVal(True), 'b')


@sym('isnan')
def isnan(x):
    return scalar_or(x, lambda t: z3.BoolVal(False), 'b')


@sym('isclose')
def isclose(a, b, rtol=1e-5, atol=1e-8):
    def f(x, y):
        x, y = core.coerce2(x, y)
        return real_abs(x - y) <= lift(atol) + lift(rtol) * real_abs(y)
    r = elementwise(f, as_arr(a), as_arr(b))
    return r if r.axes else wrap(r.fn())


def real_abs(t):
    return z3.If(t >= 0, t, -t)


@sym('allclose')
def allclose(a, b, rtol=1e-5, atol=1e-8):
    r = isclose(a, b, rtol, atol)
    return aall(r) if isinstance(r, SArr) else r


@sym('floor')
def floor(x):
    return scalar_or(x, lambda t: z3.ToReal(z3.ToInt(core.real(t))), 'r')


@sym('int')
def int_(x):
    return scalar_or(x, core.trunc, 'i')


@sym('float64')
def float64(x):
    return scalar_or(x, lambda t: core.real(core.numeric(t)), 'r')


@sym('rint')
def rint(x):
    return scalar_or(x, lambda t: z3.ToReal(core.pyround(t)), 'r')


TABLE['round'] = rint


@sym('arange')
def arange(a, b=None, step=1, dtype=None):
    if b is None:
        a, b = 0, a
    if not isinstance(step, int) or step not in (1, -1):
        raise Unsupported('arange step')
    lo, hi = lift(a), lift(b)
    if step == -1:
        n = z3.simplify(lo - hi)
        n = n if const_int(n) is not None or cur().entails(n >= 0) else z3.If(n >= 0, n, I(0))
        return SArr([Axis(n)], lambda i: core.sub(lo, i), 'i')
    n = z3.simplify(hi - lo)
    n = n if const_int(n) is not None or cur().entails(n >= 0) else z3.If(n >= 0, n, I(0))
    return SArr([Axis(n)], lambda i: core.add(lo, i), 'i')


@sym('linspace')
def linspace(a, b, num=50, retstep=False):
    lo, hi = core.real(lift(a)), core.real(lift(b))
    n = zint(num)
    step = core.div(hi - lo, n - 1)
    arr = SArr([Axis(n)], lambda i: core.add(lo, core.mul(core.real(i), step)), 'r')
    return (arr, wrap(step)) if retstep else arr


@sym('eye')
def eye(n):
    nn = zint(n)
    return SArr([Axis(nn), Axis(nn)], lambda i, j: core.ite(z3.simplify(i == j), z3.RealVal(1), z3.RealVal(0)), 'r')


TABLE['identity'] = eye


def _mk(val):
    def f(shape, dtype=None, order=None):
        k = dtype_kind(dtype) or 'r'
        t = {'r': z3.RealVal(val), 'i': I(val), 'b': z3.BoolVal(bool(val))}[k]
        return const_array(shape, t, k)
    return f


def empty(shape, dtype=None, order=None):
    k = dtype_kind(dtype) or 'r'
    a = const_array(shape, None, k)
    h = havoc_array(a.axes, k, 'empty')
    return h


CREATE = {'zeros': _mk(0), 'ones': _mk(1), 'empty': empty}


def full(shape, v, dtype=None):
    t = lift(v)
    return const_array(shape, t, kind_of(t))


CREATE['full'] = full


def _like(name):
    def f(a, dtype=None):
        a = as_arr(a)
        k = dtype_kind(dtype) or a.kind
        if name == 'empty':
            return havoc_array([Axis(x.n) for x in a.axes], k)
        v = {'zeros': 0, 'ones': 1}[name]
        t = {'r': z3.RealVal(v), 'i': I(v), 'b': z3.BoolVal(bool(v))}[k]
        return SArr([Axis(x.n) for x in a.axes], lambda *c: t, k)
    return f


for _n in ('zeros', 'ones', 'empty'):
    TABLE[_n + '_like'] = _like(_n)


@sym('delete')
def delete(a, idx, axis):
    a = as_arr(a)
    n = const_int(a.axes[axis].n)
    if n is None or symbolic(idx):
        raise Unsupported('delete from a symbolic axis')
    if isinstance(idx, int):
        idx = [idx]
    keep = [j for j in range(n) if j not in [i % n for i in idx]]
    sl = [slice(None)] * a.ndim
    sl[axis] = keep
    return a[tuple(sl)]


def prefix_fn(a):
    """P with P(0)=0, P(i+1)=P(i)+a(i) (definitional), P(n)=sum"""
    a = a.nonmask()
    ctx = cur()
    n = a.axes[0].n
    kind = join(a.kind, 'i')
    b = z3.Const('__x', z3.IntSort())
    body = z3.simplify(core.numeric(a.fn(b)))
    no_generic(body, n)
    key = ('prefix', poly.norm(n).sexpr(), poly.norm(body).sexpr())
    cache = ctx.__dict__.setdefault('prefix_cache', {})
    if key not in cache:
        sort = z3.RealSort() if kind == 'r' else z3.IntSort()
        P = ctx.fresh_fn('lib_prefix', z3.IntSort(), sort)
        j = z3.Const('__j', z3.IntSort())
        zero = z3.RealVal(0) if kind == 'r' else I(0)
        f = a.fn
        ctx.axiom(key, P(I(0)) == zero,
                  z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < n), P(j + 1) == P(j) + core.numeric(f(j))),
                            patterns=[P(j + 1)]),
                  P(n) == lift(a.sum()))
        if ctx.entails(z3.Implies(z3.And(j >= 0, j < n), core.numeric(f(j)) >= 0), 3000):
            # partial sums of non-negative terms do not decrease (induction on q-p)
            p, q = z3.Ints('__p __q')
            ctx.axiom(key + ('mono',), z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p <= q, q <= n), P(p) <= P(q)),
                                                 patterns=[z3.MultiPattern(P(p), P(q))]))
        reindex_sum(a, n)
        cache[key] = P
    return cache[key]


def reindex_sum(a, n):
    """the sum of a permuted array is the sum of the array (permutation given by argsort)"""
    ctx = cur()
    b, v = z3.Int('__rx'), z3.Int('__rv')
    body = core.numeric(a.fn(b))
    for N, pi, inv in getattr(ctx, 'perms', []):
        if not N.eq(n):
            continue
        g = z3.substitute(body, (pi(b), v))
        if not poly.occurs(g, b.get_id()) and poly.occurs(g, v.get_id()):
            ctx.axiom(('reindex', pi.name(), body.sexpr()),
                      poly.norm(core.to_z3bool(wrap(lift(a.sum())) == wrap(poly.make_sum(n, lambda i: z3.substitute(g, (v, i)))))))


@sym('cumsum')
def cumsum(a, axis=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported('cumsum nd')
    kind = join(a.kind, 'i')
    n = const_int(a.axes[0].n)
    if n is not None:
        out, tot = [], None
        for j in range(n):
            t = core.numeric(a.elem(I(j)))
            tot = t if tot is None else core.add(tot, t)
            out.append(wrap(tot))
        return from_list(out) if out else a
    P = prefix_fn(a)
    return SArr([Axis(a.axes[0].n)], lambda i: P(z3.simplify(i + 1)), kind)


@sym('unique')
def unique(a, return_index=False, return_counts=False, return_inverse=False, axis=None):
    if axis is not None or return_inverse:
        raise Unsupported('unique options')
    a = as_arr(a).nonmask()
    if a.ndim != 1:
        raise Unsupported('unique nd')
    n = const_int(a.axes[0].n)
    ctx = cur()
    if n is not None:
        vals, idx, cnt = [], [], []
        for j in range(n):
            t = a.elem(I(j))
            p = 0
            while p < len(vals) and ctx.branch(core.compare('<', vals[p], t)):
                p += 1
            if p < len(vals) and ctx.branch(core.compare('==', vals[p], t)):
                cnt[p] += 1
            else:
                vals.insert(p, t)
                idx.insert(p, j)
                cnt.insert(p, 1)
        mk = lambda xs: from_list(xs) if xs else SArr([Axis(I(0))], lambda i: i, 'i')
        res = [mk([wrap(v) for v in vals])]
        if return_index:
            res.append(mk(idx))
        if return_counts:
            res.append(mk(cnt))
        return res[0] if len(res) == 1 else tuple(res)
    N = a.axes[0].n
    f = a.fn
    x = z3.Const('__x', z3.IntSort())
    no_generic(f(x), N)
    m = ctx.fresh('lib_nuniq', z3.IntSort())
    u = ctx.fresh_fn('lib_uniq', z3.IntSort(), f(x).sort())
    ix = ctx.fresh_fn('lib_first', z3.IntSort(), z3.IntSort())
    pos = ctx.fresh_fn('lib_pos', z3.IntSort(), z3.IntSort())
    p, q = z3.Ints('__p __q')
    ctx.axiom(('unique', m.get_id()), m >= 0, m <= N, z3.Implies(N > 0, m > 0),
              z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < m), z3.And(ix(p) >= 0, ix(p) < N, f(ix(p)) == u(p), pos(ix(p)) == p)),
                        patterns=[ix(p)]),
              z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < m), f(ix(p)) == u(p)), patterns=[u(p)]),
              z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < N), z3.And(pos(p) >= 0, pos(p) < m, u(pos(p)) == f(p), ix(pos(p)) <= p)),
                        patterns=[pos(p)]),
              z3.ForAll([p, q], z3.Implies(z3.And(p >= 0, p < q, q < m), u(p) < u(q)), patterns=[z3.MultiPattern(u(p), u(q))]))
    ctx.uniq = getattr(ctx, 'uniq', []) + [(m, u, ix, pos)]
    ax = lambda: [Axis(m)]
    res = [SArr(ax(), lambda i: u(i), a.kind)]
    if return_index:
        res.append(SArr(ax(), lambda i: ix(i), 'i'))
    if return_counts:
        res.append(SArr(ax(), lambda i: poly.make_sum(N, lambda k: z3.If(f(k) == u(i), I(1), I(0))), 'i'))
    return res[0] if len(res) == 1 else tuple(res)


@sym('argsort')
def argsort(a, **k):
    a = as_arr(a).nonmask()
    n = const_int(a.axes[0].n)
    ctx = cur()
    if n is not None:
        # insertion sort with branching: stable order
        order = []
        for j in range(n):
            t = a.elem(I(j))
            p = len(order)
            while p > 0 and ctx.branch(a.elem(I(order[p - 1])) > t):
                p -= 1
            order.insert(p, j)
        return from_list(order) if order else SArr([Axis(I(0))], lambda i: i, 'i')
    N = a.axes[0].n
    pi = ctx.fresh_fn('lib_perm', z3.IntSort(), z3.IntSort())
    inv = ctx.fresh_fn('lib_rank', z3.IntSort(), z3.IntSort())
    p, q = z3.Ints('__p __q')
    f = a.fn
    no_generic(f(p), N)
    rng = lambda x: z3.And(x >= 0, x < N)
    ctx.axiom(('argsort', pi.name()),
              z3.ForAll([p], z3.Implies(rng(p), z3.And(rng(pi(p)), inv(pi(p)) == p)), patterns=[pi(p)]),
              z3.ForAll([p], z3.Implies(rng(p), z3.And(rng(inv(p)), pi(inv(p)) == p)), patterns=[inv(p)]),
              z3.ForAll([p, q], z3.Implies(z3.And(rng(p), rng(q), p <= q), f(pi(p)) <= f(pi(q))),
                        patterns=[z3.MultiPattern(pi(p), pi(q))]))
    ctx.perms = getattr(ctx, 'perms', []) + [(N, pi, inv)]
    return SArr([Axis(N)], lambda i: pi(i), 'i')


@sym('sort')
def sort(a, **k):
    a = as_arr(a).nonmask()
    if a.ndim != 1:
        raise Unsupported('sort nd')
    return a[argsort(a)]


@sym('argmax')
def argmax(a, axis=None):
    """first index of the maximum (of a boolean array: the first True, 0 if there is none)"""
    a = as_arr(a).nonmask()
    if a.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported('argmax nd')
    n = a.axes[0].n
    f = a.fn
    ctx = cur()
    k = const_int(n)
    num = (lambda t: core.numeric(t)) if a.kind == 'b' else (lambda t: t)
    if k is not None:
        b, v = I(0), num(f(I(0)))
        for j in range(1, k):
            t = num(f(I(j)))
            g = core.compare('>', t, v)
            b, v = z3.If(g, I(j), b), core.ite(g, t, v)
        return wrap(b)
    x = z3.Const('__x', z3.IntSort())
    no_generic(f(x), n)
    ix = ctx.fresh('lib_argmax', z3.IntSort())
    ctx.index_vars.add(ix.get_id())
    p = z3.Int('__p')
    g = num(f(p))
    pat = dict(patterns=[g]) if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED else {}
    ctx.axiom(('argmax', ix.get_id()), ix >= 0, ix < n,
              z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n), core.compare('<=', g, num(f(ix)))), **pat),
              z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < ix), core.compare('<', g, num(f(ix)))), **pat))
    ctx.argmaxes = getattr(ctx, 'argmaxes', []) + [ix]
    return wrap(ix)


@sym('argmin')
def argmin(a, axis=None):
    return argmax(-as_arr(a), axis)


@sym('ndim')
def ndim(a):
    return as_arr(a).ndim if not isinstance(a, (SNum, SBool)) else 0


@sym('isscalar')
def isscalar(a):
    return isinstance(a, (SNum, SBool))


@sym('atleast_1d')
def atleast_1d(a):
    if isinstance(a, (SNum, SBool)):
        return from_list([a])
    a = as_arr(a)
    return a if a.ndim else from_list([wrap(a.fn())])


@sym('searchsorted')
def searchsorted(a, v, side='left'):
    a = as_arr(a).nonmask()
    n = a.axes[0].n
    f = a.fn
    left = side == 'left'
    lt = (lambda x, y: core.compare('<', x, y)) if left else (lambda x, y: core.compare('<=', x, y))
    k = const_int(n)
    ctx = cur()

    def one(t):
        if k is not None:
            r = I(k)
            for j in range(k - 1, -1, -1):
                r = z3.If(lt(f(I(j)), t), r, I(j))
            return r
        no_generic(t, n, f(z3.Const('__x', z3.IntSort())))
        ix = ctx.fresh('lib_ss', z3.IntSort())
        ctx.index_vars.add(ix.get_id())
        ctx.ss = getattr(ctx, 'ss', []) + [ix]
        ctx.axiom(('ss', ix.get_id()), ix >= 0, ix <= n,
                  z3.Implies(ix > 0, lt(f(ix - 1), t)), z3.Implies(ix < n, z3.Not(lt(f(ix), t))))
        return ix
    if isinstance(v, (SArr, list, tuple, real_np.ndarray)):
        v = as_arr(v)
        m = const_int(v.axes[0].n)
        if m is None:
            raise Unsupported('searchsorted of symbolic array')
        return from_list([wrap(one(v.elem(I(j)))) for j in range(m)])
    return wrap(one(lift(v)))


@sym('bincount')
def bincount(ix, weights=None, minlength=0):
    ix = as_arr(ix)
    n = zint(minlength)
    f = ix.fn
    if ix.axes[0].mask is not None:
        raise Unsupported('bincount masked')
    # numpy: length is max(minlength, max(ix)+1), negative -> ValueError
    ctx = cur()
    j = ctx.index('b')
    rng = z3.And(j >= 0, j < ix.axes[0].n)
    k = const_int(ix.axes[0].n)
    if k is not None:
        for q in range(k):
            if not ctx.branch(f(I(q)) >= 0):
                raise ValueError('bincount of negative')
            if not ctx.branch(f(I(q)) < n):
                raise Unsupported('bincount beyond minlength')
    elif not ctx.entails(z3.Implies(rng, z3.And(f(j) >= 0, f(j) < n)), 5000):
        raise Unsupported('bincount range')
    w = None if weights is None else as_arr(weights).nonmask().fn

    def g(b):
        return poly.make_sum(ix.axes[0].n, lambda i: z3.If(f(i) == b, I(1) if w is None else w(i),
                                                           I(0) if w is None or as_arr(weights).kind == 'i' else z3.RealVal(0)))
    return SArr([Axis(n)], memo(g), 'i' if w is None else 'r')


# ---- discrete Fourier transforms: assumed contract = convolution theorem for the zero-padded (or cut) inputs
class FT:
    """rfft(n) of an array padded with zeros to the given sizes"""
    __array_ufunc__ = None

    def __init__(self, arr, sizes, last_m):
        self.arr, self.sizes, self.last_m = arr, sizes, last_m

    def __mul__(self, o):
        if isinstance(o, FT):
            return FTProd(self, o)
        raise Unsupported('operation on a Fourier transform')

    def _no(self, *a, **k):
        raise Unsupported('operation on a Fourier transform')
    __add__ = __sub__ = __truediv__ = __getitem__ = __rmul__ = __pow__ = __neg__ = __len__ = __iter__ = _no


class FTProd(FT):
    def __init__(self, a, b):
        ctx = cur()
        if len(a.sizes) != len(b.sizes):
            raise Unsupported('product of transforms of different dimension')
        for x, y in zip(a.sizes, b.sizes):
            require_same(x, y)
        self.a, self.b, self.sizes = a, b, a.sizes

    __mul__ = FT._no


def _ft_sizes(x, s):
    if s is None:
        return [a.n for a in x.axes]
    if isinstance(s, SArr):
        k = const_int(s.axes[0].n)
        return [z3.simplify(s.elem(I(q))) for q in range(k)]
    if isinstance(s, (list, tuple, real_np.ndarray)):
        return [zint(int(q) if isinstance(q, real_np.integer) else q) for q in s]
    return [zint(int(s) if isinstance(s, real_np.integer) else s)]


@sym('fft.rfft')
def fft_rfft(x, n=None):
    x = as_arr(x).nonmask()
    if x.ndim != 1:
        raise Unsupported('rfft of a matrix')
    return FT(x.copy(), _ft_sizes(x, n), None)


@sym('fft.rfftn')
def fft_rfftn(x, s=None):
    x = as_arr(x).nonmask()
    sz = _ft_sizes(x, s)
    if len(sz) != x.ndim:
        raise Unsupported('rfftn over some axes')
    return FT(x.copy(), sz, None)


def _ft_inverse(p, sizes):
    ctx = cur()
    if not isinstance(p, FTProd):
        raise Unsupported('inverse transform')
    S = p.sizes
    if sizes is None:
        # length 2*(m-1), m = s//2+1: equal to s when s is even
        if not ctx.entails(S[-1] % 2 == 0):
            raise Unsupported('inverse transform of odd length')
    else:
        for x, y in zip(S, sizes):
            require_same(x, y)
    x, y = p.a.arr, p.b.arr
    xf, yf = x.fn, y.fn
    nx, ny = [a.n for a in x.axes], [a.n for a in y.axes]
    for q in range(len(S)):
        if not ctx.entails(z3.And(nx[q] <= S[q], ny[q] <= S[q])):
            raise Unsupported('transform shorter than the data')

    def g(*k):
        def body(i):
            # y at (k - i) modulo the transform length, zero beyond its own length
            d = [core.sub(k[q], i[q]) for q in range(len(S))]
            at = [z3.If(d[q] >= 0, d[q], core.add(d[q], S[q])) for q in range(len(S))]
            return z3.If(z3.And(*[at[q] < ny[q] for q in range(len(S))]), core.mul(xf(*i), yf(*at)), z3.RealVal(0))

        def nest(i):
            if len(i) == len(S):
                return core.real(body(i))
            return poly.make_sum(nx[len(i)], lambda j: nest(i + [j]))
        return core.real(nest([]))
    return SArr([Axis(t) for t in S], memo(g), 'r')


@sym('fft.irfft')
def fft_irfft(p, n=None):
    return _ft_inverse(p, None if n is None else [zint(n)])


@sym('fft.irfftn')
def fft_irfftn(p, s=None):
    return _ft_inverse(p, None if s is None else _ft_sizes(None, s))


class PackedFT(SArr):
    """fftpack.rfft: y_0, Re y_1, Im y_1, ..., y_(s/2) for even s"""


@sym('scipy.fftpack.rfft')
def fftpack_rfft(x, n=None):
    ctx = cur()
    x = as_arr(x).nonmask()
    if x.ndim != 1:
        raise Unsupported('rfft of a matrix')
    s = _ft_sizes(x, n)[0]
    if not ctx.entails(z3.And(s % 2 == 0, s >= 2, x.axes[0].n <= s)):
        raise Unsupported('real transform of odd length or shorter than the data')
    t = len(getattr(ctx, 'packed', []))
    Re = z3.Function('lib_rfft_re%d' % t, z3.IntSort(), z3.RealSort())
    Im = z3.Function('lib_rfft_im%d' % t, z3.IntSort(), z3.RealSort())
    r = SArr([Axis(s)], lambda k: z3.If(k % 2 == 1, Re((k + 1) / 2), z3.If(k == 0, Re(I(0)), Im(k / 2))), 'r')
    ctx.packed = getattr(ctx, 'packed', []) + [(x.copy(), s, Re, Im)]
    return r


@sym('scipy.fftpack.idct')
def fftpack_idct(a, type=2):
    """Wiener-Khinchin: type-1 inverse cosine transform of the power spectrum of zero-padded data is s times its cyclic autocorrelation"""
    ctx = cur()
    a = as_arr(a).nonmask()
    if type != 1:
        raise Unsupported('cosine transform')
    m = a.axes[0].n
    for x, s, Re, Im in reversed(getattr(ctx, 'packed', [])):
        if not ctx.entails(m == s / 2 + 1):
            continue
        k = z3.FreshConst(z3.IntSort(), 'k')
        ok = all(ctx.entails(z3.Implies(c, core.real(a.fn(k)) == v), 5000) for c, v in (
            (k == 0, Re(I(0)) * Re(I(0))), (k == m - 1, Re(k) * Re(k)), (z3.And(k > 0, k < m - 1), Re(k) * Re(k) + Im(k) * Im(k))))
        if not ok:
            continue
        n, xf = x.axes[0].n, x.fn

        def g(k):
            def body(i):
                at = z3.If(core.add(i, k) < s, core.add(i, k), core.sub(core.add(i, k), s))
                return z3.If(at < n, core.mul(xf(i), xf(at)), z3.RealVal(0))
            return core.mul(core.real(s), core.real(poly.make_sum(n, body)))
        return SArr([Axis(m)], memo(g), 'r')
    raise Unsupported('cosine transform of something other than a power spectrum')


class CClass:
    def __getitem__(self, items):
        if not symbolic(items):
            return real_np.c_[items]
        if not isinstance(items, tuple):
            items = (items,)
        xs = [as_arr(x) for x in items]
        return concat([x if x.ndim == 2 else x[:, None] for x in xs], 1)


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real_np.float64) or (isinstance(x, SNum) and not x.is_int)

    def __subclasscheck__(cls, x):
        return issubclass(x, real_np.float64)


class F64(metaclass=_F64Meta):
    def __new__(cls, x=0):
        return float64(x) if symbolic(x) else real_np.float64(x)


def unf64(x):
    return real_np.float64 if x is F64 else x


class Shim:
    """stands for the numpy module"""

    def __init__(self, mod, prefix=''):
        self.__dict__['_mod'] = mod
        self.__dict__['_prefix'] = prefix
        self.__dict__['__name__'] = mod.__name__

    def __getattr__(self, name):
        v = getattr(self._mod, name)
        if not self._prefix:
            if name == 'c_':
                return CClass()
            if name in CREATE and Ctx_active():
                f = CREATE[name]
                return f
            if name == 'float64':
                return F64
        if isinstance(v, type):
            return v
        full = self._prefix + name
        import types
        if isinstance(v, types.ModuleType):
            return Shim(v, full + '.')
        if callable(v):
            return make_wrapper(full, v)
        return v


def Ctx_active():
    return core.Ctx.cur is not None


_wrappers = {}
OVERRIDE = {}       # per-contract assumed contracts of library functions: full name -> f


def make_wrapper(full, v):
    if full in _wrappers:
        return _wrappers[full]

    def w(*a, **k):
        if full in OVERRIDE and Ctx_active():
            return OVERRIDE[full](*a, **k)
        a = tuple(unf64(x) for x in a)
        k = {q: unf64(x) for q, x in k.items()}
        if symbolic(a) or symbolic(k):
            f = TABLE.get(full)
            if f is None:
                raise Unsupported('numpy.%s on symbolic arguments' % full)
            try:
                return f(*a, **k)
            except TypeError as e:
                if 'argument' in str(e):
                    raise Unsupported('numpy.%s: %s' % (full, e))
                raise
        if Ctx_active() and full in ('array', 'asarray') and a and isinstance(a[0], (list, tuple)):
            r = v(*a, **k)
            return as_arr(r).copy() if r.dtype.kind in 'fib' and r.ndim else r
        return v(*a, **k)
    w.__name__ = full
    _wrappers[full] = w
    return w
