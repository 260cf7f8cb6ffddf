"""Loads /repo's modules for symbolic execution.

The module source is read from /repo on every run, parsed, and compiled after this mechanical rewriting
(nothing is dropped):
  for T in E: B        ->  loop = hook(E); while loop.top(): [restore loop state]; if loop.done(): break; T = loop.item(); B
  while C: B           ->  loop = hook();  while loop.top(): [restore loop state]; if not C: break; B
  [E for T in I]       ->  hook(lambda T: E, I)        (single generator, no condition)
  X[i] = v, X[i] op= v ->  hook(X, i, v)
  'fmt' % v, 'x'.join(v), f'..{v}..' -> hooks           (strings)
and with builtins (len, range, isinstance, int, ...) and numpy that also accept symbolic values.  On concrete
values every hook does exactly what the original statement did.
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

import numpy as real_np
import z3

from . import core, npshim, poly
from .arr import SArr, SList, as_arr, const_int, zint, I, Axis
from .core import SNum, SBool, Unsupported, PathEnd, cur, lift, wrap

ROOTS = ('getdist', 'paramgrid', 'CMBlikes')


class Poison:
    """value of a loop-carried local that the generic iteration may not read"""

    def __init__(self, name):
        self.__dict__['_n'] = name

    def _bad(self, *a, **k):
        raise Unsupported('loop-carried local %s' % self.__dict__['_n'])

    __getattr__ = __call__ = __getitem__ = __setitem__ = __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = _bad
    __rmul__ = __truediv__ = __iter__ = __len__ = __bool__ = __lt__ = __le__ = __gt__ = __ge__ = _bad
    __eq__ = __ne__ = __iadd__ = __isub__ = __str__ = __int__ = __index__ = __floordiv__ = __mod__ = __neg__ = _bad
    __hash__ = object.__hash__


UNBOUND = object()


class Names(ast.NodeVisitor):
    def __init__(self):
        self.stored = []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.stored:
            self.stored.append(n.id)

    def visit_FunctionDef(self, n):
        if n.name not in self.stored:
            self.stored.append(n.name)

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


MUTATORS = {'append', 'extend', 'insert', 'pop', 'update', 'add', 'remove', 'setdefault', 'clear', 'write'}


def has_mutation(body):
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                return True
            if isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)):
                return True
    return False


class Transform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.counter = {}
        self.tmp = 0

    def qual(self):
        return '.'.join(self.stack)

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        n.body = [self.visit(x) for x in n.body]
        n.body = flat(n.body)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        n.decorator_list = n.decorator_list
        self.stack.pop()
        return n

    def in_func(self):
        return bool(self.stack)

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def loop_id(self):
        q = self.qual()
        k = self.counter.get(q, 0)
        self.counter[q] = k + 1
        return k

    def getter(self, names):
        # lambda: {'a': lambda: a, ...}
        return ast.Dict(keys=[ast.Constant(v) for v in names],
                        values=[ast.Lambda(args=noargs(), body=ast.Name(v, ast.Load())) for v in names])

    def hook(self, name, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name('__pyvc__', ast.Load()), attr=name, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def make_loop(self, n, kind, it, target):
        k = self.loop_id()
        names = Names()
        for st in n.body:
            names.visit(st)
        if target is not None:
            names.visit(target)
        stored = [x for x in names.stored]
        mut = has_mutation(n.body)
        all_names = Names()
        self.tmp += 1
        lv = '__loop%d' % self.tmp
        loaded = sorted({x.id for st in n.body for x in ast.walk(st) if isinstance(x, ast.Name)} |
                        ({x.id for x in ast.walk(n.test) if isinstance(x, ast.Name)} if kind == 'while' else set()))
        glob = [x for x in loaded if x not in stored]
        n.body = flat([self.visit(x) for x in n.body])
        if target is None:
            n.test = self.visit(n.test)
        setup = ast.Assign(targets=[ast.Name(lv, ast.Store())],
                           value=self.hook('loop', ast.Constant(self.mod), ast.Constant(self.qual()), ast.Constant(k),
                                           ast.Constant(kind), it if it is not None else ast.Constant(None),
                                           self.getter(stored), self.getter(glob), ast.Constant(mut)))
        LN = lambda: ast.Name(lv, ast.Load())
        att = lambda a, *args: ast.Call(func=ast.Attribute(value=LN(), attr=a, ctx=ast.Load()), args=list(args), keywords=[])
        restore = []
        for v in stored:
            restore.append(ast.If(test=att('has', ast.Constant(v)),
                                  body=[ast.Assign(targets=[ast.Name(v, ast.Store())], value=att('val', ast.Constant(v)))],
                                  orelse=[]))
        body = [ast.If(test=ast.Attribute(value=LN(), attr='restoring', ctx=ast.Load()), body=restore or [ast.Pass()], orelse=[])]
        if kind == 'for':
            body.append(ast.If(test=att('done'), body=[ast.Break()], orelse=[]))
            body.append(ast.Assign(targets=[target], value=att('item')))
        else:
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[ast.Break()], orelse=[]))
        body += n.body
        # 'else' of loops: executed when not broken -> flag
        orelse = flat([self.visit(x) for x in n.orelse])
        loop = ast.While(test=att('top'), body=body, orelse=[])
        out = [setup, loop]
        if orelse:
            if kind == 'for':
                body[1].body = [ast.Expr(att('finished')), ast.Break()]
            else:
                body[1].body = [ast.Expr(att('finished')), ast.Break()]
            out.append(ast.If(test=ast.Attribute(value=LN(), attr='fin', ctx=ast.Load()), body=orelse, orelse=[]))
        out.append(ast.Expr(att('leave')))
        return out

    def visit_For(self, n):
        if not self.in_func():
            return self.generic_visit(n)
        it = self.visit(n.iter)
        return self.make_loop(n, 'for', it, n.target)

    def visit_While(self, n):
        if not self.in_func():
            return self.generic_visit(n)
        return self.make_loop(n, 'while', None, None)

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) != 1 or not self.in_func():
            return n
        g = n.generators[0]
        for x in ast.walk(n):
            if isinstance(x, (ast.Await, ast.Yield, ast.NamedExpr)):
                return n
        if g.ifs:
            if isinstance(g.target, ast.Name):
                names = [g.target.id]
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                names = [e.id for e in g.target.elts]
            else:
                return n
            test = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(g.ifs))
            return self.hook('filtercomp', ast.Lambda(args=args1(names), body=n.elt), ast.Lambda(args=args1(names), body=test), g.iter,
                             ast.Constant(isinstance(g.target, ast.Tuple)))
        if isinstance(g.target, ast.Name):
            lam = ast.Lambda(args=args1([g.target.id]), body=n.elt)
            return self.hook('listcomp', lam, g.iter, ast.Constant(False))
        if isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
            lam = ast.Lambda(args=args1([e.id for e in g.target.elts]), body=n.elt)
            return self.hook('listcomp', lam, g.iter, ast.Constant(True))
        return n

    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.in_func() and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript):
            t = n.targets[0]
            return ast.Expr(self.hook('setitem', t.value, to_index(t.slice), n.value))
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if self.in_func() and isinstance(n.ctx, ast.Load) and not isinstance(n.slice, ast.Constant):
            return self.hook('getitem', n.value, to_index(n.slice))
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if self.in_func() and isinstance(n.target, ast.Subscript):
            t = n.target
            return ast.Expr(self.hook('augitem', t.value, to_index(t.slice), ast.Constant(type(n.op).__name__), n.value))
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return self.hook('mod', n.left, n.right)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return self.hook('emptydict') if not n.keys and self.in_func() else n

    def visit_List(self, n):
        self.generic_visit(n)
        return self.hook('emptylist') if not n.elts and isinstance(n.ctx, ast.Load) and self.in_func() else n

    def visit_JoinedStr(self, n):
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'join' and len(n.args) == 1 and not n.keywords \
                and isinstance(n.func.value, (ast.Constant, ast.Name)):
            return self.hook('join', n.func.value, n.args[0])
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            return n
        return n


def to_index(s):
    if isinstance(s, ast.Slice):
        z = lambda x: x if x is not None else ast.Constant(None)
        return ast.Call(func=ast.Name('slice', ast.Load()), args=[z(s.lower), z(s.upper), z(s.step)], keywords=[])
    if isinstance(s, ast.Tuple):
        return ast.Tuple(elts=[to_index(e) for e in s.elts], ctx=ast.Load())
    return s


def noargs():
    return ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])


def args1(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, list):
            out.extend(x)
        elif x is not None:
            out.append(x)
    return out


# --------------------------------------------------------------------------------------------- run time of the hooks
LOOPSPECS = {}       # (module, qualname, ordinal) -> spec object


def mentions(v, var, depth=0):
    """does the value mention the index variable"""
    if isinstance(v, (SNum, SBool)):
        return poly.occurs(v.t, var.get_id())
    if isinstance(v, SArr):
        cs = [cur().index('m') if const_int(a.n) is None else I(0) for a in v.axes]
        try:
            return poly.occurs(v.fn(*cs), var.get_id()) or any(poly.occurs(a.n, var.get_id()) for a in v.axes)
        except (Unsupported, Exception):
            return True
    if depth < 3 and isinstance(v, (list, tuple)):
        return any(mentions(x, var, depth + 1) for x in v)
    if depth < 3 and isinstance(v, dict):
        return any(mentions(x, var, depth + 1) for x in v.values())
    return False


def subst_value(v, var, t):
    """value with index variable var replaced by term t"""
    if var.eq(t):
        return v
    if isinstance(v, (SNum, SBool)):
        return wrap(z3.substitute(v.t, (var, t)))
    if isinstance(v, SArr):
        f = v.fn

        def g(*c):
            return z3.substitute(f(*c), (var, t))
        if any(poly.occurs(a.n, var.get_id()) for a in v.axes):
            raise Unsupported('shape depends on the loop index')
        return SArr(v.axes, g, v.kind)
    if isinstance(v, tuple):
        return tuple(subst_value(x, var, t) for x in v)
    if isinstance(v, list):
        return [subst_value(x, var, t) for x in v]
    if isinstance(v, SList):
        f = v.fn
        return SList(v.n, lambda i: subst_value(f(i), var, t))
    if type(v).__name__ in ('SStr', 'UStr'):
        return type(v)(z3.substitute(v.t, (var, t)))
    if v is None or isinstance(v, (int, float, str, bool)) or type(v).__name__ == 'Fraction':
        return v
    raise Unsupported('cannot generalise %r over the loop' % type(v))


class Generic:
    """marker of a generic iteration: records which arrays it writes, and their contents before"""

    def __init__(self, var):
        self.var = var
        self.start = SArr.count
        self.arrays = []
        self.snaps = {}

    def before_write(self, a):
        if a.serial > self.start:
            return      # created inside the iteration
        if id(a) not in self.snaps:
            self.snaps[id(a)] = (a._fn, list(a.axes))
            self.arrays.append(a)

    def restore(self):
        for a in self.arrays:
            a._fn, a.axes = self.snaps[id(a)]
        r = self.arrays
        self.arrays, self.snaps = [], {}
        return r


def as_seq(x):
    """(length term, item function) of a symbolic-length iterable, or None"""
    if isinstance(x, SList):
        if const_int(x.n) is not None:
            return None
        return x.n, x.fn
    if isinstance(x, SArr):
        if const_int(x.axes[0].n) is not None:
            return None
        return x.axes[0].n, lambda k: x[wrap(k)]
    return None


class Loop:
    def __init__(self, key, kind, it, getters, glob, mut):
        self.key = key
        self.kind = kind
        self.get = getters
        self.glob = glob
        self.mut = mut
        self.restoring = False
        self.vals = {}
        self.fin = False
        self.mode = 'native'
        self.state = 0
        seq = as_seq(it) if kind == 'for' else None
        spec = LOOPSPECS.get(key) if core.Ctx.cur is not None else None
        if spec is not None and (seq is not None or kind == 'while') and spec.applies(self, it):
            self.mode = 'cut'
            self.spec = spec
            self.seq = seq
        elif seq is not None:
            self.mode = 'map'
            self.seq = seq
            if mut:
                raise Unsupported('loop over a symbolic range with list mutation or early exit, no invariant: %s' % (key,))
        elif kind == 'for':
            self.iter = iter(it)
        self.writes = []

    # locals
    def locals(self):
        d = {}
        for src in (self.glob, self.get):
            for v, g in src.items():
                try:
                    d[v] = g()
                except NameError:
                    pass
        return d

    def has(self, v):
        return v in self.vals

    def val(self, v):
        return self.vals[v]

    def finished(self):
        self.fin = True

    def top(self):
        self.restoring = False
        if self.mode == 'native':
            return True
        if self.mode == 'cut':
            return self.top_cut()
        return self.top_map()

    # ---- invariant rule
    def top_cut(self):
        ctx = cur()
        st = self.locals()
        if self.state == 0:
            self.pre = st
            self.spec.entry(self, st)
            self.k = ctx.index('k') if self.kind == 'for' else None
            if self.k is not None:
                ctx.assume(self.k >= 0)
                ctx.assume(self.k <= self.seq[0])
            # carried locals the invariant does not describe become unusable
            try:
                hv = dict(self.spec.havoc(self, st))
            except (KeyError, AttributeError, TypeError) as e:
                raise Unsupported('loop invariant does not apply: %r' % e)
            self.vals = {v: Poison(v) for v in self.get}
            self.vals.update(hv)
            start, ok = SArr.count, [id(a) for a in getattr(self, 'modifies', [])]

            def watch(a):
                if a.serial <= start and id(a) not in ok:
                    raise Unsupported('loop writes an array outside the frame of its invariant')
            self.watch = watch
            ctx.watch.append(watch)
            self.restoring = True
            self.state = 1
            return True
        self.spec.preserved(self, st)
        raise PathEnd()

    # ---- generic-iteration ("parallel for") rule
    def top_map(self):
        ctx = cur()
        if self.state == 0:
            n = self.seq[0]
            self.n = n
            self.before = {v: g for v, g in ((v, self._try(v)) for v in self.get) if g is not UNBOUND}
            self.k = ctx.index('k')
            self.g = Generic(self.k)
            self.npc = len(ctx.pc)
            ctx.pc.append(z3.And(self.k >= 0, self.k < n))
            # is the loop possibly empty?  the effect formula is guarded by 0<=k<n, so nothing to do
            ctx.generic.append(self.g)
            self.state = 1
            return True
        if self.state == 1:
            # discovery finished: roll back, havoc written arrays, poison carried locals, run once more
            self.written = self.g.restore()
            self.hav = {}
            self.old = [(a, a._fn, list(a.axes)) for a in self.written]
            for a in self.written:
                f = ctx.fresh_fn('carry', *([z3.IntSort()] * len(a.axes) + [elem_sort(a.kind)]))
                self.hav[id(a)] = f
                a._fn = (lambda f: lambda *c: f(*c))(f)
            self.vals = {v: Poison(v) for v in self.get}
            self.restoring = True
            self.g.arrays, self.g.snaps, self.g.start = [], {}, self.g.start
            self.state = 2
            return True
        if self.state == 2:
            self.generalise()
            self.state = 3
            ctx.generic.pop()
            del ctx.pc[self.npc]
            self.vals = {v: Poison(v) for v in self.get}
            self.restoring = True
            return True
        raise Unsupported('map loop state')

    def _try(self, v):
        try:
            return self.get[v]()
        except NameError:
            return UNBOUND

    def generalise(self):
        ctx = cur()
        k, n = self.k, self.n
        for a in self.g.arrays:
            if not any(a is x for x in self.written):
                raise Unsupported('array written only in the generic iteration')
        for o in getattr(ctx, 'tracked', []):
            for v in vars(o).values():
                if isinstance(v, SArr) and any(v is a for a in self.written):
                    continue
                if mentions(v, k):
                    raise Unsupported('loop writes an attribute that depends on the index')
        for a, oldfn, oldaxes in self.old:
            h = self.hav[id(a)]
            newfn = a._fn
            cs = [ctx.index('c') for _ in oldaxes]
            t = newfn(*cs)
            cases = split_cases(t, h, cs)
            # cases: list of (cond, value) with value free of carry and cond; else-part must be h(cs)
            out = []
            for cond, val in cases:
                if uses_fn(val, h) or any(uses_fn(val, g) for g in self.hav.values()):
                    raise Unsupported('loop-carried array value')
                if any(uses_fn(cond, g) for g in self.hav.values()):
                    raise Unsupported('loop-carried array condition')
                w = find_witness(cond, k, cs)
                if w is None:
                    raise Unsupported('cannot identify the iteration that writes an element')
                out.append((cond, val, w))
            # every point is written by at most one iteration (or with the same value)
            k2 = ctx.index('k')
            for ci, (cond, val, w) in enumerate(out):
                for cj, (cond2, val2, w2) in enumerate(out):
                    c2 = z3.substitute(cond2, (k, k2))
                    v2 = z3.substitute(val2, (k, k2))
                    pre = z3.And(k2 >= 0, k2 < n, k2 != k, cond, c2)
                    if not ctx.entails(z3.Implies(pre, val == v2), 3000):
                        raise Unsupported('iterations write the same element')
            self_cases = out

            def make(self_cases=self_cases, oldfn=oldfn, cs=cs, kind=a.kind):
                def f(*c):
                    r = oldfn(*c)
                    for cond, val, w in reversed(self_cases):
                        sub = list(zip(cs, c))
                        wt = z3.substitute(w, *sub)
                        cd = z3.substitute(z3.substitute(cond, *sub), (k, wt))
                        vl = z3.substitute(z3.substitute(val, *sub), (k, wt))
                        cd = z3.simplify(z3.And(cd, wt >= 0, wt < n))
                        r = core.ite(cd, vl, r)
                    return r
                return f
            from .arr import memo
            a._fn = memo(make())

    def done(self):
        if self.mode == 'native':
            try:
                self.nxt = next(self.iter)
                return False
            except StopIteration:
                return True
        if self.mode == 'cut':
            n = self.seq[0]
            if cur().branch(self.k < n):
                return False
            cur().assume(self.k == n)
            self.spec.exit(self)
            return True
        return self.state == 3

    def item(self):
        if self.mode == 'native':
            return self.nxt
        return self.seq[1](self.k)

    def leave(self):
        if self.mode == 'cut' and self.watch in cur().watch:
            cur().watch.remove(self.watch)


def elem_sort(kind):
    from .arr import SORT
    return SORT[kind]


def uses_fn(t, f):
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().eq(f):
            return True
        st.extend(x.children())
    return False


def split_cases(t, h, cs):
    """t = If(c1, v1, If(c2, v2, h(cs))) -> [(c1,v1),(And(!c1,c2),v2)]"""
    out = []
    neg = []
    while True:
        if z3.is_app(t) and t.decl().eq(h) and all(a.eq(b) for a, b in zip(t.children(), cs)):
            return out
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            if uses_exact(a, h, cs):
                # If(c, h, b)
                out_c = z3.Not(c)
                neg.append(c)
                t = b
                continue
            out.append((z3.And(*(neg_all(neg) + [c])) if neg else c, a))
            neg.append(c)
            t = b
            continue
        out.append((z3.And(*neg_all(neg)) if neg else z3.BoolVal(True), t))
        return out


def neg_all(neg):
    return [z3.Not(c) for c in neg]


def uses_exact(t, h, cs):
    return z3.is_app(t) and t.decl().eq(h) and all(a.eq(b) for a, b in zip(t.children(), cs))


def conjuncts(c):
    if z3.is_and(c):
        return [y for x in c.children() for y in conjuncts(x)]
    return [c]


def find_witness(cond, k, cs):
    """a term w over cs with cond -> k == w"""
    for c in conjuncts(cond):
        if z3.is_eq(c) and isinstance(c.arg(0), z3.ArithRef):
            d = poly.padd(poly.poly(c.arg(0)), poly.poly(c.arg(1)), -1)
            kk = ((k.get_id(), 1),)
            if kk in d and abs(d[kk]) == 1:
                rest = {m: -v / d[kk] for m, v in d.items() if m != kk}
                e = poly.build(rest)
                if not poly.occurs(e, k.get_id()) and e.sort() == z3.IntSort():
                    return e
    return None


class Hooks:
    def loop(self, mod, qual, k, kind, it, getters, glob, mut):
        return Loop((mod, qual, k), kind, it, getters, glob, mut)

    def listcomp(self, f, it, star):
        seq = as_seq(it)
        if seq is None:
            return [f(*x) for x in it] if star else [f(x) for x in it]
        n, item = seq
        ctx = cur()
        k = ctx.index('q')
        npc = len(ctx.pc)
        ctx.pc.append(z3.And(k >= 0, k < n))
        g = Generic(k)
        ctx.generic.append(g)
        x = item(k)
        v = f(*x) if star else f(x)
        ctx.generic.pop()
        if g.arrays:
            raise Unsupported('comprehension with array writes')
        del ctx.pc[npc]
        return SList(n, lambda i: subst_value(v, k, lift(i)))

    def filtercomp(self, f, cond, it, star):
        seq = as_seq(it)
        if seq is None:
            return [f(*x) for x in it if cond(*x)] if star else [f(x) for x in it if cond(x)]
        n, item = seq
        ctx = cur()
        k = ctx.index('q')
        npc = len(ctx.pc)
        ctx.pc.append(z3.And(k >= 0, k < n))
        g = Generic(k)
        ctx.generic.append(g)
        x = item(k)
        b = cond(*x) if star else cond(x)
        b = core.to_z3bool(b)
        ctx.pc.append(b)
        v = f(*x) if star else f(x)
        ctx.generic.pop()
        if g.arrays:
            raise Unsupported('comprehension with array writes')
        del ctx.pc[npc:]
        from .arr import masked_axis
        ax = masked_axis(n, lambda i: z3.substitute(b, (k, i)))
        if not hasattr(ax, 'rank'):
            p = z3.Int('__p')
            rank = ctx.fresh_fn('lib_rank', z3.IntSort(), z3.IntSort())
            ctx.axiom(('rank', ax.key),
                      z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < n, z3.substitute(b, (k, p))),
                                                z3.And(rank(p) >= 0, rank(p) < ax.n, ax.sel(rank(p)) == p)), patterns=[rank(p)]),
                      z3.ForAll([p], z3.Implies(z3.And(p >= 0, p < ax.n), rank(ax.sel(p)) == p), patterns=[ax.sel(p)]))
            ax.rank = rank
            ctx.filters = getattr(ctx, 'filters', []) + [(it, ax.n, ax.sel, rank)]
        return SList(ax.n, lambda i: subst_value(v, k, ax.sel(lift(i))))

    def emptydict(self):
        ctx = core.Ctx.cur
        f = getattr(ctx, 'empty_dict', None) if ctx is not None else None
        return {} if f is None else f()

    def emptylist(self):
        ctx = core.Ctx.cur
        f = getattr(ctx, 'empty_list', None) if ctx is not None else None
        return [] if f is None else f()

    def getitem(self, x, i):
        if isinstance(x, real_np.ndarray) and core.Ctx.cur is not None and npshim.symbolic(i if not isinstance(i, slice) else [i.start, i.stop, i.step]):
            if x.dtype.kind not in 'fib':
                raise Unsupported('symbolic index into a concrete array')
            return as_arr(x)[i]
        return x[i]

    def setitem(self, x, i, v):
        ctx = core.Ctx.cur
        if ctx is not None and ctx.generic:
            if not isinstance(x, SArr):
                raise Unsupported('item assignment to %r in a symbolic loop' % type(x))
        if isinstance(x, real_np.ndarray) and (npshim.symbolic(v) or npshim.symbolic(i)):
            raise Unsupported('symbolic value stored in a concrete array')
        x[i] = v

    def augitem(self, x, i, op, v):
        ctx = core.Ctx.cur
        if ctx is not None and ctx.generic:
            if not isinstance(x, SArr):
                raise Unsupported('item assignment in a symbolic loop')
        import operator
        f = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': operator.itruediv,
             'FloorDiv': operator.ifloordiv, 'Mod': operator.imod, 'Pow': operator.ipow, 'BitOr': operator.ior,
             'BitAnd': operator.iand}[op]
        x[i] = f(x[i], v)

    def mod(self, a, b):
        if isinstance(a, str):
            from . import sstr, ustr
            if ustr.has(b):
                return ustr.format_percent(a, b)
            if sstr.has_sym(b):
                return sstr.format_percent(a, b)
        return a % b

    def join(self, s, xs):
        from . import sstr, ustr
        if not isinstance(xs, (str, SList)):
            xs = list(xs)
            if ustr.has(s) or ustr.has(tuple(xs)):
                return ustr.join(s, xs)
        if isinstance(s, (str, sstr.SStr)):
            return sstr.join(s, xs)
        return s.join(xs)


HOOKS = Hooks()


# ----------------------------------------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, SArr):
        return wrap(x.axes[0].n)
    if isinstance(x, SList):
        return wrap(x.n)
    if hasattr(x, '__slen__'):
        return x.__slen__()
    return len(x)


def b_range(*a):
    if npshim.symbolic(a):
        if len(a) == 1:
            lo, hi = 0, a[0]
        elif len(a) == 2:
            lo, hi = a
        elif len(a) == 3 and a[2] == 1:
            lo, hi, _ = a
        else:
            raise Unsupported('range step')
        l, h = lift(lo), lift(hi)
        n = z3.simplify(h - l)
        if const_int(n) is None and not cur().entails(n >= 0, 500):
            n = z3.If(n >= 0, n, I(0))
        elif const_int(n) is not None:
            n = I(max(0, const_int(n)))
        return SList(n, lambda i: wrap(core.add(l, lift(i))))
    return range(*[int(x) if type(x).__name__ == 'Fraction' and x.denominator == 1 else x for x in a])


def b_enumerate(x, start=0):
    s = as_seq(x)
    if s is None:
        return enumerate(x, start)
    n, f = s
    return SList(n, lambda i: (wrap(core.add(lift(i), lift(start))), f(i)))


def b_zip(*xs):
    ss = [as_seq(x) for x in xs]
    if all(s is None for s in ss):
        return zip(*xs)
    if any(s is None for s in ss):
        raise Unsupported('zip of symbolic and concrete')
    from .arr import require_same
    for s in ss[1:]:
        require_same(s[0], ss[0][0])
    return SList(ss[0][0], lambda i: tuple(s[1](i) for s in ss))


def b_isinstance(x, t):
    ts = t if isinstance(t, tuple) else (t,)
    flat_ts = []
    for q in ts:
        flat_ts.extend(q if isinstance(q, tuple) else (q,))
    for q in flat_ts:
        if isinstance(x, SNum):
            if x.is_int:
                if q in (int, real_np.integer) or getattr(q, '__name__', '') in ('Integral', 'Number', 'Real'):
                    return True
            elif q in (float, real_np.floating, npshim.F64) or getattr(q, '__name__', '') in ('Number', 'Real'):
                return True
        elif isinstance(x, SBool):
            if q in (bool, real_np.bool_, int):
                return True
        elif isinstance(x, SArr):
            if q is real_np.ndarray:
                return True
        elif isinstance(x, SList):
            if q is list:
                return True
        elif type(x).__name__ in ('SStr', 'UStr'):
            if q is str:
                return True
        elif type(x).__name__ == 'SDict':
            if q is dict:
                return True
        elif type(x).__name__ == 'Fraction':
            if q in (float, real_np.floating, npshim.F64):
                return True
    if isinstance(x, (SNum, SBool, SArr, SList)) or type(x).__name__ in ('SStr', 'UStr', 'Fraction', 'SDict'):
        return False
    return isinstance(x, t)


def b_int(x=0, *a):
    if isinstance(x, SNum):
        return wrap(core.trunc(x.t))
    if isinstance(x, SBool):
        return wrap(core.numeric(x.t))
    if isinstance(x, SArr) and x.ndim == 0:
        return wrap(core.trunc(x.fn()))
    if type(x).__name__ in ('SStr', 'UStr'):
        return x.to_int()
    return int(x, *a)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return b_isinstance(x, int)

    def __eq__(cls, o):
        return o is int or o is cls

    def __hash__(cls):
        return hash(int)


def b_float(x=0):
    if isinstance(x, (SNum, SBool)):
        return wrap(core.real(core.numeric(x.t)))
    if type(x).__name__ == 'Fraction':
        return x
    if type(x).__name__ in ('SStr', 'UStr'):
        return x.to_float()
    return float(x)


def b_abs(x):
    return abs(x)


def _fold(which):
    def f(*a, **k):
        xs = a
        if len(a) == 1:
            if isinstance(a[0], SArr):
                return npshim.minmax(a[0], None, which)
            if isinstance(a[0], SList):
                return npshim.minmax(a[0].to_arr(), None, which)
            if not npshim.symbolic(a[0]):
                return getattr(builtins, which)(*a, **k)
            xs = list(a[0])
        if not npshim.symbolic(list(xs)) or k:
            return getattr(builtins, which)(*a, **k)
        r = xs[0]
        for y in xs[1:]:
            # python: min keeps the first of equals
            c = core.compare('<', y, r) if which == 'min' else core.compare('>', y, r)
            ty, tr = core.lift(y), core.lift(r)
            r = wrap(core.ite(c, *core.coerce2(ty, tr)))
        return r
    return f


def b_sum(x, start=0):
    s = as_seq(x)
    if s is None:
        return sum(x, start)
    n, f = s
    return wrap(poly.make_sum(n, lambda i: lift(f(i)))) + start


def b_round(x, nd=None):
    if isinstance(x, SNum):
        if nd not in (None, 0):
            raise Unsupported('round digits')
        return wrap(core.pyround(x.t))
    return round(x, nd) if nd is not None else round(x)


def b_list(x=()):
    if isinstance(x, SList) and const_int(x.n) is None:
        return SList(x.n, x.fn)
    if isinstance(x, SArr) and const_int(x.axes[0].n) is None:
        y = x.copy()
        return SList(y.axes[0].n, lambda i: y[wrap(i)])
    return list(x)


def b_set(x=()):
    if core.Ctx.cur is not None and isinstance(x, (list, tuple)) and any(type(q).__name__ in ('SStr', 'UStr') for q in x):
        from .sstr import SSet
        return SSet(x)
    return set(x)


def b_dict(*a, **k):
    return dict(*a, **k) if a or k else HOOKS.emptydict()


def b_tuple(x=()):
    if isinstance(x, (SList, SArr)):
        return b_list(x)
    return tuple(x)


def b_str(x='', *a):
    if type(x).__name__ in ('SStr', 'UStr'):
        return x
    if isinstance(x, SNum):
        from . import sstr
        return sstr.int_to_str(x)
    return str(x, *a)


def b_any(x):
    if isinstance(x, SArr):
        return x.any()
    return any(x)


def b_all(x):
    if isinstance(x, SArr):
        return x.all()
    return all(x)


class TypeProxy:
    """callable stand-in for int/float/str/list/tuple that still works in isinstance and as a dtype"""


def b_print(*a, **k):
    if core.Ctx.cur is None:
        print(*a, **k)


OVER = {'print': b_print, 'len': b_len, 'range': b_range, 'enumerate': b_enumerate, 'zip': b_zip, 'isinstance': b_isinstance,
        'min': _fold('min'), 'max': _fold('max'), 'sum': b_sum, 'round': b_round, 'any': b_any, 'all': b_all}
CALLS = {'int': b_int, 'float': b_float, 'list': b_list, 'tuple': b_tuple, 'str': b_str, 'set': b_set, 'dict': b_dict}


class CallTypes(ast.NodeTransformer):
    """int(x) -> __pyvc_int__(x), likewise float, str, list, tuple (only in call position)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in CALLS:
            n.func = ast.Name('__pyvc_%s__' % n.func.id, ast.Load())
        return n


_real_import = builtins.__import__


def shim_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = _real_import(name, globals, locals, fromlist, level)
    if name == 'numpy' or (name.startswith('numpy.') and not fromlist):
        return NUMPY
    if name in ('scipy', 'numpy.linalg') or name.startswith('scipy.'):
        return npshim.Shim(m, name + '.')
    return m


NUMPY = npshim.Shim(real_np)
BUILTINS = dict(vars(builtins))
BUILTINS.update(OVER)
BUILTINS['__import__'] = shim_import
for _k, _v in CALLS.items():
    BUILTINS['__pyvc_%s__' % _k] = _v
BUILTINS['__pyvc__'] = HOOKS

SOURCES = {}


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] not in ROOTS:
            return None
        rel = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(rel) and os.path.exists(os.path.join(rel, '__init__.py')):
            return importlib.machinery.ModuleSpec(name, self, origin=os.path.join(rel, '__init__.py'), is_package=True)
        if os.path.exists(rel + '.py'):
            return importlib.machinery.ModuleSpec(name, self, origin=rel + '.py')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        spec = module.__spec__
        path = spec.origin
        module.__file__ = path
        if spec.submodule_search_locations is not None:
            module.__path__ = [os.path.dirname(path)]
        with open(path, encoding='utf-8-sig') as f:
            src = f.read()
        SOURCES[spec.name] = src
        tree = ast.parse(src, path)
        tree = Transform(spec.name).visit(tree)
        tree = CallTypes().visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, 'exec')
        module.__dict__['__builtins__'] = BUILTINS
        exec(code, module.__dict__)


def install(root='/repo/python'):
    sys.meta_path.insert(0, Finder(root))
