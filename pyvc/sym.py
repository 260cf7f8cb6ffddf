"""symbolic executions of contracts: obligations and their discharge"""
import importlib
import json
import subprocess
import time
import builtins
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, poly, loader, npshim
from .arr import SArr, SList, Axis, const_int, I, as_arr
from .core import Ctx, SNum, SBool, Unsupported, PathEnd, lift, wrap, real
from .api import Skip, Failed


class Obl:
    __slots__ = ('name', 'status', 'backend', 'time', 'model', 'detail', 'faithful')

    def __init__(self, name):
        self.name = name
        self.status = None
        self.backend = ''
        self.time = 0.0
        self.model = None
        self.detail = ''
        self.faithful = True


_roots = {}


def roots(e):
    """applications of the root and the exponential in a formula (outside quantifiers)"""
    r = _roots.get(e.get_id())
    if r is None or r[0] is not e and not r[0].eq(e):
        out, seen, st = [], set(), [e]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                continue
            if z3.is_app(x):
                if x.num_args() == 1 and x.decl().name() in ('f_sqrt', 'f_exp'):
                    out.append(x)
                st.extend(x.children())
        r = _roots[e.get_id()] = (e, out)
        if len(_roots) > 20000:
            _roots.clear()
    return r[1]


def sqrt_axioms(exprs):
    """facts about roots and exponentials occurring in the query"""
    out, exps, seen = [], [], set()
    for e in exprs:
        for x in roots(e):
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if x.decl().name() == 'f_sqrt':
                a = x.arg(0)
                out.append(z3.Implies(a >= 0, z3.And(x >= 0, x * x == a)))
                out.append(z3.Implies(a > 0, x > 0))
            else:
                out.append(x > 0)
                exps.append(x)
    for i in range(min(len(exps), 6)):
        for j in range(i):
            a, b = exps[i], exps[j]
            out.append((a.arg(0) < b.arg(0)) == (a < b))
        out.append(z3.Implies(exps[i].arg(0) == 0, exps[i] == 1))
        out.append((exps[i].arg(0) < 0) == (exps[i] < 1))
    return out


def find_ite(t, seen=None):
    """an if-then-else condition in t (not below an uninterpreted sum)"""
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x):
            return x.arg(0)
        st.extend(x.children())
    return None


def decided(pc, axioms, cond):
    for v in (True, False):
        s = z3.Solver()
        s.set('timeout', 800)
        s.add(*pc)
        s.add(*axioms)
        s.add(z3.Not(cond) if v else cond)
        if s.check() == z3.unsat:
            return v
    return None


def prove(pc, axioms, goal, obl, timeout=core.TIMEOUT_MS, hints=(), depth=0):
    """discharge pc => goal, splitting on the conditions of if-then-else terms first"""
    if depth < 7 and z3.is_eq(goal) and isinstance(goal.arg(0), z3.ArithRef):
        t0 = time.time()
        g = z3.simplify(goal)
        if z3.is_true(g):
            obl.status, obl.backend = 'discharged', 'z3-simplify'
            obl.time += time.time() - t0
            return obl
        c = find_ite(goal)
        if c is not None:
            v = decided(pc, axioms, c)
            obl.time += time.time() - t0
            for b in ((True, False) if v is None else (v,)):
                g2 = z3.substitute(goal, (c, z3.BoolVal(b)))
                g2 = rebuild_ite(g2)
                f = c if b else z3.Not(c)
                prove(list(pc) + ([f] if v is None else []), axioms, g2, obl, timeout, hints, depth + 1)
                if obl.status != 'discharged':
                    return obl
            return obl
    return prove_leaf(pc, axioms, goal, obl, timeout, hints)


_rb = {}


def rebuild_ite(t):
    """resolve if-then-else with literal conditions"""
    k = t.get_id()
    if k in _rb:
        return _rb[k][0]
    if z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_true(t.arg(0)):
        r = rebuild_ite(t.arg(1))
    elif z3.is_app_of(t, z3.Z3_OP_ITE) and z3.is_false(t.arg(0)):
        r = rebuild_ite(t.arg(2))
    elif z3.is_app(t) and t.num_args():
        ch = [rebuild_ite(c) for c in t.children()]
        if all(a.eq(b) for a, b in zip(ch, t.children())):
            r = t
        else:
            r = z3.substitute(t, *[(a, b) for a, b in zip(t.children(), ch) if not a.eq(b)])
            if len(_rb) > 200000:
                _rb.clear()
    else:
        r = t
    _rb[k] = (r, t)
    return r


depth_ext = [0]


def sum_apps(t, seen, acc):
    if t.get_id() in seen:
        return
    seen.add(t.get_id())
    if z3.is_quantifier(t):
        return
    if z3.is_app(t) and t.decl().name() in poly.SUMDEF and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        acc.append(t)
    for c in t.children():
        sum_apps(c, seen, acc)


def sum_combination(pc, axioms, hints, d):
    """a linear combination of sums over one range vanishes if the combined summand vanishes at every index"""
    b = z3.Int('__ext')
    total, n0, hit = None, None, 0
    for dep, cf in d.items():
        sums = [(a, e) for a, e in dep if z3.is_app(poly.ATOM[a]) and poly.ATOM[a].decl().name() in poly.SUMDEF]
        if len(sums) != 1 or sums[0][1] != 1:
            return False
        t = poly.ATOM[sums[0][0]]
        D, pl, n, _ = poly.SUMDEF[t.decl().name()]
        sub = list(zip(pl, t.children()))
        body = z3.substitute(D, *(sub + [(poly.BV, b)]))
        n = z3.simplify(z3.substitute(n, *sub)) if sub else z3.simplify(n)
        if n0 is None:
            n0 = n
        elif not n0.eq(n):
            return False
        rest = tuple((a, e) for a, e in dep if a != sums[0][0])
        term = core.mul(poly.build({rest: cf}), body)
        total = term if total is None else core.add(total, term)
    if total is None:
        return False
    depth_ext[0] += 1
    try:
        o = Obl('ext')
        prove(list(pc) + [b >= 0, b < n0], axioms, core.real(total) == 0, o, 5000, hints)
        return o.status == 'discharged'
    finally:
        depth_ext[0] -= 1


def sum_extensionality(pc, axioms, hints, goal, limit=12):
    """equalities between sums of the goal over the same range whose summands are provably equal at every index"""
    acc = []
    sum_apps(goal, set(), acc)
    b = z3.Int('__ext')
    out = []
    bodies = []
    for t in acc:
        D, pl, n, _ = poly.SUMDEF[t.decl().name()]
        sub = [(p, a) for p, a in zip(pl, t.children())]
        bodies.append((t, z3.substitute(D, *(sub + [(poly.BV, b)])), z3.simplify(z3.substitute(n, *sub)) if sub else z3.simplify(n)))
    tried = 0
    depth_ext[0] += 1
    try:
        for x in range(len(bodies)):
            for y in range(x):
                (t1, d1, n1), (t2, d2, n2) = bodies[x], bodies[y]
                if t1.sort() != t2.sort() or not n1.eq(n2) or tried >= limit:
                    continue
                tried += 1
                o = Obl('ext')
                a1, a2 = core.coerce2(d1, d2)
                prove(list(pc) + [b >= 0, b < n1], axioms, a1 == a2, o, 3000, hints)
                if o.status == 'discharged':
                    out.append(t1 == t2)
    finally:
        depth_ext[0] -= 1
    return out


def prove_leaf(pc, axioms, goal, obl, timeout=core.TIMEOUT_MS, hints=()):
    t0 = time.time()
    g = z3.simplify(goal)
    d = None
    if z3.is_true(g):
        obl.status, obl.backend = 'discharged', 'z3-simplify'
        obl.time += time.time() - t0
        return obl
    # equality goals: ring normal form first
    if z3.is_eq(goal) and isinstance(goal.arg(0), z3.ArithRef):
        try:
            d = poly.padd(poly.poly(goal.arg(0)), poly.poly(goal.arg(1)), -1)
            if not d:
                obl.status, obl.backend = 'discharged', 'ring-normaliser'
                obl.time += time.time() - t0
                return obl
            goal = core.real(poly.build(d)) == 0
        except Unsupported:
            pass
    else:
        try:
            goal = poly.norm(goal)
        except (Unsupported, z3.Z3Exception):
            pass
    s = z3.Solver()
    s.set('timeout', timeout)
    allf = list(pc) + list(axioms) + list(hints)
    allf += sqrt_axioms(allf + [goal])
    s.add(*allf)
    s.add(z3.Not(goal))
    r = s.check()
    obl.backend = 'z3'
    if r != z3.unsat and d and depth_ext[0] <= 1:
        if d and sum_combination(pc, axioms, hints, d):
            obl.status, obl.backend = 'discharged', 'z3'
            obl.time += time.time() - t0
            return obl
        eqs = sum_extensionality(pc, axioms, hints, goal)
        if eqs:
            s.add(*eqs)
            r = s.check()
    if r == z3.unknown:
        # second back end: cvc5 on the same query
        r2 = cvc5_check(s, timeout)
        if r2 == 'unsat':
            r = z3.unsat
            obl.backend = 'cvc5'
    obl.time += time.time() - t0
    if r == z3.unsat:
        obl.status = 'discharged'
    elif r == z3.sat:
        obl.status = 'refuted'
        obl.model = s.model()
        obl.faithful = not any(poly.has_abstract(x) for x in [goal] + list(pc))
    else:
        obl.status = 'unknown'
        obl.detail = s.reason_unknown()
    return obl


def cvc5_check(s, timeout):
    try:
        txt = '(set-logic ALL)\n' + s.sexpr() + '\n(check-sat)\n'
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout, '-'], input=txt, capture_output=True,
                           text=True, timeout=timeout / 1000 + 10)
        return r.stdout.strip().split('\n')[0] if r.stdout else 'error'
    except Exception:
        return 'error'


class Sym:
    concrete = False

    def __init__(self, ctx, mode, recorder):
        self.ctx = ctx
        ctx.mode = mode
        self.mode = mode
        self.rec = recorder
        self.inputs = []      # (name, kind, object)
        ctx.tracked = []
        self.undo = []
        ctx.recorder = lambda name, f: recorder.obligation(self, name, core.to_z3bool(f))

    def module(self, name):
        return importlib.import_module(name)

    # ------------------------------------------------------------- inputs
    def dim(self, name, lo=1, small=(1, 2, 3), hi=12):
        if self.mode == 'bounded':
            small = [s for s in small if s >= lo]
            v = small[self.ctx.choose(len(small))]
            self.inputs.append((name, 'const', v))
            return v
        t = z3.Int(name)
        self.ctx.assume(t >= lo)
        self.inputs.append((name, 'scalar', t))
        return SNum(t)

    def partial(self, cls):
        return cls.__new__(cls)

    def flag(self, name):
        v = bool(self.ctx.choose(2))
        self.inputs.append((name, 'const', v))
        return v

    def option(self, name, opts):
        k = self.ctx.choose(len(opts))
        self.inputs.append((name, 'const', k))
        return opts[k]

    def int(self, name, lo=None, hi=None, gen=None):
        t = z3.Int(name)
        if lo is not None:
            self.ctx.assume(t >= lift(lo))
        if hi is not None:
            self.ctx.assume(t <= lift(hi))
        if self.mode == 'proof':
            self.ctx.index_vars.add(t.get_id())
        self.inputs.append((name, 'scalar', t))
        return SNum(t)

    def real(self, name, lo=None, hi=None, pos=False, gen=None):
        t = z3.Real(name)
        if lo is not None:
            self.ctx.assume(t >= real(lift(lo)))
        if hi is not None:
            self.ctx.assume(t <= real(lift(hi)))
        if pos:
            self.ctx.assume(t > 0)
        self.inputs.append((name, 'scalar', t))
        return SNum(t)

    def array(self, name, dims, kind='r', pred=None, gen=None):
        if not isinstance(dims, tuple):
            dims = (dims,)
        sort = {'r': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]
        f = z3.Function('in_' + name, *([z3.IntSort()] * len(dims) + [sort]))
        axes = [Axis(z3.simplify(lift(d))) for d in dims]
        a = SArr(axes, lambda *c: f(*c), kind)
        if pred is not None:
            ns = [const_int(x.n) for x in axes]
            if None not in ns:
                for ix in np.ndindex(*ns):
                    self.ctx.assume(pred(wrap(f(*[I(int(i)) for i in ix]))))
            else:
                vs = [z3.Const('__d%d' % k, z3.IntSort()) for k in range(len(dims))]
                self.ctx.pc.append(z3.ForAll(vs, core.to_z3bool(pred(wrap(f(*vs)))), patterns=[f(*vs)]))
        self.inputs.append((name, kind, (f, axes)))
        return a

    def fresh_copy(self, a):
        return a.copy()

    def assume(self, cond):
        self.ctx.assume(cond)

    def assume_all(self, n, f):
        """precondition: f(i) for every 0 <= i < n"""
        n = lift(n)
        k = const_int(n)
        if k is not None:
            for i in range(k):
                self.ctx.assume(f(i))
            return
        v = z3.Const('__a0', z3.IntSort())
        self.ctx.index_vars.add(v.get_id())
        self.ctx.keep = getattr(self.ctx, 'keep', []) + [v]
        self.ctx.pc.append(z3.ForAll([v], z3.Implies(z3.And(v >= 0, v < n), poly.norm(core.to_z3bool(f(wrap(v)))))))

    def stub(self, mod, name, fn, owner=None):
        """modular step (proof mode only): calls of mod.name use its contract fn instead of its body"""
        if self.mode != 'proof':
            return
        o = importlib.import_module(mod)
        for part in (owner.split('.') if owner else []):
            o = getattr(o, part, None)
        if not owner and not hasattr(o, name) and hasattr(builtins, name):
            setattr(o, name, fn)
            self.undo.append(lambda: delattr(o, name))
            return
        if o is None or not hasattr(o, name):
            raise Unsupported('function %s.%s under contract is gone' % (mod, name))
        old = o.__dict__.get(name, getattr(o, name))
        setattr(o, name, fn)
        self.undo.append(lambda: setattr(o, name, old))

    def library(self, full, fn):
        """assumed contract of a library function (full name as in numpy: 'linalg.eigh') for this contract"""
        if self.mode == 'proof':
            npshim.OVERRIDE[full] = fn

    def new(self, dims, f, kind='r'):
        """an array given by its elements (results of contracts)"""
        return SArr([Axis(z3.simplify(lift(d))) for d in dims], lambda *i: lift(f(*[wrap(x) for x in i])), kind)

    def lemma(self, *facts):
        """definitional unfoldings supplied to the solver"""
        for f in facts:
            self.ctx.axioms.append(core.to_z3bool(f))

    def ghost(self, name, k=-1):
        """what an assumed library contract introduced (permutation of argsort, index of searchsorted, ...)"""
        try:
            return getattr(self.ctx, name)[k]
        except (AttributeError, IndexError):
            raise Unsupported('no %s in this execution' % name)

    def name(self, base, v):
        """a fresh constant defined as v (keeps terms small)"""
        t = lift(v)
        k = self.ctx.fresh(base, t.sort())
        if z3.is_int(t):
            self.ctx.index_vars.add(k.get_id())
        self.ctx.pc.append(k == t)
        return wrap(k)

    # lemmas on finite sums; their premises are obligations
    def sums_le(self, name, n, f, g):
        """f(i) <= g(i) for all i < n, hence sum f <= sum g"""
        i = self.ctx.index('m')
        a, b = core.coerce2(lift(f(wrap(i))), lift(g(wrap(i))))
        self.rec.obligation(self, name, a <= b, pre=[i >= 0, i < lift(n)])
        self.ctx.axioms.append(poly.norm(core.to_z3bool(self.sum(n, f) <= self.sum(n, g))))

    def permuted_sum(self, perm, g):
        """sum over i of g(i) = sum over p of g(perm(p)), perm being a permutation given by argsort"""
        N, pi, inv = perm
        self.ctx.axioms.append(poly.norm(core.to_z3bool(self.sum(wrap(N), lambda p: g(wrap(pi(lift(p))))) == self.sum(wrap(N), g))))

    def prefix_is_sum(self, a, k):
        """the sum of the first k elements, k <= n, is the sum over all of those with index < k"""
        from .npshim import prefix_fn
        k = lift(k)
        n = a.axes[0].n
        self.rec.obligation(self, 'prefix_range', z3.And(k >= 0, k <= n))
        P = prefix_fn(a)
        self.ctx.axioms.append(poly.norm(core.to_z3bool(wrap(P(z3.simplify(k))) == self.sum(wrap(n), lambda p: self.ite(wrap(lift(p) < k), self.at(a, p), 0)))))

    # ------------------------------------------------------------- spec operations
    def sum(self, n, f):
        return wrap(poly.make_sum(lift(n), lambda i: lift(f(wrap(i)))))

    def prefix(self, a):
        """r -> sum of the first r elements"""
        from .npshim import prefix_fn
        k = const_int(a.axes[0].n)
        if k is None:
            P = prefix_fn(a)
            return lambda r: wrap(P(lift(r)))
        t = [I(0)]
        for j in range(k):
            t.append(core.add(t[-1], core.numeric(a.elem(I(j)))))

        def f(r):
            r = lift(r)
            if z3.is_int_value(r):
                return wrap(t[r.as_long()])
            v = t[k]
            for j in range(k - 1, -1, -1):
                v = z3.If(r == j, t[j], v)
            return wrap(v)
        return f

    def at(self, a, *i):
        return wrap(a.elem(*[lift(x) for x in i]))

    def sqrt(self, x):
        return wrap(core.ufun('sqrt', lift(x)))

    def exp(self, x):
        return wrap(core.ufun('exp', lift(x)))

    def log(self, x):
        return wrap(core.ufun('log', lift(x)))

    def ite(self, c, a, b):
        return wrap(core.ite(core.to_z3bool(c), lift(a), lift(b)))

    def And(self, *a):
        return wrap(z3.And(*[core.to_z3bool(x) for x in a]))

    def Or(self, *a):
        return wrap(z3.Or(*[core.to_z3bool(x) for x in a]))

    def Not(self, a):
        return wrap(z3.Not(core.to_z3bool(a)))

    def Implies(self, a, b):
        return wrap(z3.Implies(core.to_z3bool(a), core.to_z3bool(b)))

    def trunc(self, x):
        return wrap(core.trunc(lift(x)))

    def min(self, n, f):
        from .arr import minmax
        k = lift(f(wrap(z3.Const('__probe', z3.IntSort())))) if const_int(lift(n)) is None else lift(f(0))
        from .arr import kind_of
        return minmax(SArr([Axis(lift(n))], lambda i: lift(f(wrap(i))), kind_of(k)), None, 'min')

    def max(self, n, f):
        from .arr import minmax, kind_of
        k = lift(f(wrap(z3.Const('__probe', z3.IntSort())))) if const_int(lift(n)) is None else lift(f(0))
        return minmax(SArr([Axis(lift(n))], lambda i: lift(f(wrap(i))), kind_of(k)), None, 'max')

    def forall(self, n, f):
        """for use inside check(): generic index"""
        n = lift(n)
        k = const_int(n)
        if k is not None:
            return self.And(*[f(i) for i in range(k)]) if k else True
        i = self.ctx.index('fa')
        return wrap(z3.Implies(z3.And(i >= 0, i < n), core.to_z3bool(f(wrap(i)))))

    # ------------------------------------------------------------- checks
    def check(self, name, cond, msg=''):
        self.rec.obligation(self, name, core.to_z3bool(cond))

    def check_eq(self, name, a, b, scale=0.0, rtol=None):
        if isinstance(a, SArr) and not a.axes:
            a = wrap(a.fn())
        if a is None or b is None:
            self.rec.obligation(self, name, z3.BoolVal(a is b))
            return
        ta, tb = core.coerce2(lift(a), lift(b)) if not (z3.is_bool(lift(a)) and z3.is_bool(lift(b))) else (lift(a), lift(b))
        self.rec.obligation(self, name, ta == tb)

    def check_is(self, name, a, b):
        self.rec.obligation(self, name, z3.BoolVal(a is b))

    def check_arr(self, name, a, dims, f, scale=0.0, rtol=None):
        if not isinstance(dims, tuple):
            dims = (dims,)
        a = as_arr(a).nonmask()
        if a.ndim != len(dims):
            self.rec.obligation(self, name + '.ndim', z3.BoolVal(False))
            return
        cs, pre = [], []
        for k, (ax, d) in enumerate(zip(a.axes, dims)):
            n = lift(d)
            if not ax.n.eq(n):
                self.rec.obligation(self, name + '.shape', ax.n == n)
            i = self.ctx.index('e')
            cs.append(i)
            pre += [i >= 0, i < n]
        # axes of known length are enumerated, the others are generic
        ns = [const_int(lift(d)) for d in dims]
        pre = [q for k in range(len(dims)) if ns[k] is None for q in (cs[k] >= 0, cs[k] < lift(dims[k]))]
        for ix in np.ndindex(*[1 if m is None else m for m in ns]):
            p = [cs[k] if ns[k] is None else I(int(ix[k])) for k in range(len(dims))]
            q = [wrap(cs[k]) if ns[k] is None else int(ix[k]) for k in range(len(dims))]
            x, y = a.fn(*p), lift(f(*q))
            if not (z3.is_bool(x) and z3.is_bool(y)):
                x, y = core.coerce2(x, y)
            self.rec.obligation(self, name, x == y, pre=pre)

    def check_rows(self, name, a, n, keep, f, dims=(), scale=0.0):
        """a's rows are, in order, the rows i of 0..n-1 with keep(i), with elements f(i, ...)"""
        a = as_arr(a)
        if a.ndim != 1 + len(dims):
            self.rec.obligation(self, name + '.ndim', z3.BoolVal(False))
            return
        n = lift(n)
        k = const_int(n)
        if k is not None:
            rows = [i for i in range(k) if self.ctx.branch(core.to_z3bool(keep(i)))]
            self.check_arr(name, a, (len(rows),) + tuple(dims), lambda r, *x: f(rows[int(r)], *x))
            return
        ax = a.axes[0]
        i = self.ctx.index('r')
        cs = [self.ctx.index('e') for _ in dims]
        pre = [i >= 0, i < n]
        for c, d in zip(cs, dims):
            pre += [c >= 0, c < lift(d)]
        for b, d in zip(a.axes[1:], dims):
            if not b.n.eq(lift(d)):
                self.rec.obligation(self, name + '.shape', b.n == lift(d))
        kp = core.to_z3bool(keep(wrap(i)))
        if ax.mask is None:
            self.rec.obligation(self, name + '.count', ax.n == n)
            self.rec.obligation(self, name + '.rows', kp, pre=pre)
        else:
            self.rec.obligation(self, name + '.count', ax.pn == n)
            self.rec.obligation(self, name + '.rows', ax.mask(i) == kp, pre=pre)
        x = a.fn(i, *cs)
        y = lift(f(wrap(i), *[wrap(c) for c in cs]))
        x, y = core.coerce2(x, y)
        self.rec.obligation(self, name, x == y, pre=pre + [kp])

    def raises(self, excs, f):
        try:
            f()
        except excs:
            return True
        return False

    def track(self, *o):
        self.ctx.tracked.extend(o)

    def isnone(self, x):
        return x is None

    def length(self, x):
        return loader.b_len(x)


class Recorder:
    def __init__(self, con, mode, timeout):
        self.con = con
        self.mode = mode
        self.obls = []
        self.timeout = timeout
        self.models = []
        self.unsupported = []
        self.paths = 0
        self.groups = {}
        self.complete = 0
        self.solver_time = 0.0
        self.stop_at_refuted = mode == 'bounded'
        self.n_by_name = {}

    def obligation(self, c, name, goal, pre=()):
        o = Obl(name)
        prove(c.ctx.pc + list(pre), c.ctx.axioms, goal, o)
        self.solver_time += o.time
        self.obls.append(o)
        if o.status == 'refuted':
            self.models.append((name, extract(c, o.model)))
            o.model = None
            if self.stop_at_refuted:
                raise StopAll()
        # use the fact from here on
        if o.status == 'discharged' and not pre:
            c.ctx.pc.append(goal)


class StopAll(BaseException):
    pass


def val(m, t):
    v = m.eval(t, model_completion=True)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        w = v.approx(20)
        return float(Fraction(w.numerator_as_long(), w.denominator_as_long()))
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_string_value(v):
        return v.as_string()
    return None


def extract(c, m):
    out = {}
    for name, kind, o in c.inputs:
        try:
            if kind == 'const':
                out[name] = o
            elif kind == 'scalar':
                out[name] = val(m, o)
            else:
                f, axes = o
                ns = [val(m, a.n) for a in axes]
                if any(n is None or n > 12 for n in ns):
                    return None
                data = [val(m, f(*[I(int(i)) for i in ix])) for ix in np.ndindex(*ns)]
                out[name] = {'__nd__': True, 'data': data, 'shape': ns, 'dtype': {'r': 'float64', 'i': 'int64', 'b': 'bool'}[kind]}
        except Exception:
            return None
    return out


def explore(con, mode, budget):
    """run a contract symbolically over all paths"""
    rec = Recorder(con, mode, budget)
    t0 = time.time()
    work = [[]]
    npshim.OVERRIDE.clear()
    if con.overrides:
        npshim.OVERRIDE.update(con.overrides())
    while work:
        if time.time() - t0 > budget or rec.paths >= con.paths:
            rec.unsupported.append('exploration budget exhausted after %d paths' % rec.paths)
            break
        prefix = work.pop()
        ctx = Ctx(prefix)
        ctx.deadline = t0 + budget
        Ctx.cur = ctx
        c = Sym(ctx, mode, rec)
        rec.paths += 1
        before = len(rec.obls)
        try:
            con.fn(c)
            rec.complete += 1
        except PathEnd:
            rec.complete += 1
        except StopAll:
            Ctx.cur = None
            break
        except Unsupported as e:
            rec.unsupported.append(str(e))
        except (Skip,):
            rec.complete += 1
        except RecursionError as e:
            rec.unsupported.append('recursion')
        except z3.Z3Exception as e:
            rec.unsupported.append('z3: %s' % e)
            import os
            if os.environ.get('PYVC_TB'): traceback.print_exc()
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            last = tb[-1].filename
            inrepo = any('/repo/' in fr.filename for fr in tb)
            if '/pyvc/' in last and not isinstance(e, (IndexError, ValueError)) or not inrepo:
                rec.unsupported.append('engine: %s: %s @ %s:%s' % (type(e).__name__, e, last, tb[-1].lineno))
            else:
                o = Obl('no-exception')
                prove(ctx.pc, ctx.axioms, z3.BoolVal(False), o)
                o.detail = '%s: %s @ %s:%s' % (type(e).__name__, e, last, tb[-1].lineno)
                rec.solver_time += o.time
                rec.obls.append(o)
                if o.status == 'refuted':
                    rec.models.append(('no-exception', extract(c, o.model)))
                    o.model = None
                    if rec.stop_at_refuted:
                        break
        finally:
            for u in reversed(c.undo):
                u()
            work.extend(ctx.alternatives)
        # vacuity: for each choice of flags and options some path must have consistent facts (a path the engine could not
        # prune may be infeasible, but not all of them)
        if len(rec.obls) > before:
            s = z3.Solver()
            s.set('timeout', 100 if getattr(ctx, 'ground', False) else 1000)
            s.add(*ctx.pc)
            s.add(*ctx.axioms)
            g = rec.groups.setdefault(tuple((n, v) for n, k, v in c.inputs if k == 'const'), [0, 0])
            g[0] += 1
            g[1] += s.check() == z3.unsat
        Ctx.cur = None
    Ctx.cur = None
    return rec


def summary(rec):
    by = {}
    for o in rec.obls:
        d = by.setdefault(o.name, {'instances': 0, 'discharged': 0, 'status': 'discharged', 'backend': {}, 'time': 0.0, 'detail': '', 'faithful': True})
        d['instances'] += 1
        d['time'] += o.time
        if o.status == 'discharged':
            d['discharged'] += 1
            d['backend'][o.backend] = d['backend'].get(o.backend, 0) + 1
        else:
            if d['status'] != 'refuted':
                d['status'] = o.status
            d['detail'] = o.detail
            d['faithful'] = d['faithful'] and o.faithful
    return {'mode': rec.mode, 'paths': rec.paths, 'complete': rec.complete, 'vacuous': sum(1 for g in rec.groups.values() if g[0] == g[1]),
            'infeasible_paths': sum(g[1] for g in rec.groups.values()),
            'unsupported': sorted(set(rec.unsupported))[:8], 'obligations': by, 'solver_s': rec.solver_time,
            'models': rec.models[:5]}
