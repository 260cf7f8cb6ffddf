"""Path exploration, obligations and the symbolic scalars.

A contract function is executed many times ("paths").  Each execution replays a prefix of branch
decisions and then takes the first feasible branch, queueing the other one, until no alternatives are
left.  All values are z3 terms over mathematical integers and reals.
"""
import time
from fractions import Fraction

import z3

TIMEOUT_MS = 8000
FEAS_MS = 1500


class Unsupported(BaseException):
    """The engine cannot follow the code here: the contract is undecided (never a violation)."""


class PathEnd(BaseException):
    """This path is complete (end of a cut loop iteration, or a contradiction was assumed)."""


class Ctx:
    cur = None

    def __init__(self, prefix=()):
        self.prefix = list(prefix)
        self.trace = []
        self.alternatives = []
        self.pc = []
        self.axioms = []
        self.axkeys = set()
        self.nfresh = 0
        self.abstract = False     # a fact on this path was weakened to an unconstrained value
        self.generic = []
        self.watch = []         # stack of generic-iteration markers
        self.inrange = set()      # ids of generic (hence in-range) index variables
        self.index_vars = set()   # ids of z3 Int constants that act as index variables
        self.deadline = None

    # ---- facts
    def assume(self, b):
        b = to_z3bool(b)
        b = z3.simplify(b)
        if z3.is_true(b):
            return
        if z3.is_false(b):
            raise PathEnd()
        self.pc.append(b)

    def axiom(self, key, *facts):
        """Definitional facts (unfoldings, contracts of library functions)."""
        if key in self.axkeys:
            return
        self.axkeys.add(key)
        self.axioms.extend(facts)

    def fresh(self, base, sort):
        self.nfresh += 1
        return z3.Const('%s!%d' % (base, self.nfresh), sort)

    def fresh_fn(self, base, *sorts):
        self.nfresh += 1
        return z3.Function('%s!%d' % (base, self.nfresh), *sorts)

    def index(self, base='i'):
        v = self.fresh(base, z3.IntSort())
        self.index_vars.add(v.get_id())
        self.inrange.add(v.get_id())
        self.keep = getattr(self, 'keep', [])
        self.keep.append(v)
        return v

    # ---- branching
    def feasible(self, extra, timeout=FEAS_MS):
        s = z3.Solver()
        s.set('timeout', timeout)
        if getattr(self, 'ground', False):
            # only the facts without quantifiers: may follow a branch that cannot be taken, never drops one that can
            s.add(*[f for f in list(self.pc) + list(self.axioms) if not quantified(f)])
        else:
            s.add(*self.pc)
            s.add(*self.axioms)
        s.add(extra)
        return s.check() != z3.unsat

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.generic:
            from . import poly
            if any(poly.occurs(cond, g.var.get_id()) for g in self.generic):
                if self.entails(cond):
                    return True
                if self.entails(z3.Not(cond)):
                    return False
                raise Unsupported('branch on the index of a symbolic loop')
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('path exploration out of time')
        if len(self.trace) < len(self.prefix):
            v = self.prefix[len(self.trace)]
        else:
            ft = self.feasible(cond)
            ff = self.feasible(z3.Not(cond)) if ft else True
            if ft and ff:
                v = True
                self.alternatives.append(self.trace + [False])
            else:
                v = ft
            if not ft and not ff:
                raise PathEnd()
        self.trace.append(v)
        self.pc.append(cond if v else z3.simplify(z3.Not(cond)))
        return v

    def choose(self, k):
        """Pick one of 0..k-1, all of them over all paths."""
        if len(self.trace) < len(self.prefix):
            v = self.prefix[len(self.trace)]
        else:
            v = 0
            for j in range(1, k):
                self.alternatives.append(self.trace + [j])
        self.trace.append(v)
        return v

    def entails(self, cond, timeout=FEAS_MS):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        s = z3.Solver()
        s.set('timeout', timeout)
        if getattr(self, 'ground', False):
            s.add(*[f for f in list(self.pc) + list(self.axioms) if not quantified(f)])
        else:
            s.add(*self.pc)
            s.add(*self.axioms)
        s.add(z3.Not(cond))
        return s.check() == z3.unsat


def cur():
    return Ctx.cur


_quant = {}


def quantified(f):
    r = _quant.get(f.get_id())
    if r is None or r[0] is not f:
        r = z3.is_quantifier(f) or any(quantified(x) for x in f.children())
        _quant[f.get_id()] = (f, r)
        return r
    return r[1]


# ------------------------------------------------------------------ scalars
def lift(x):
    """Python number / symbolic -> z3 term"""
    if isinstance(x, (SNum, SBool)):
        return x.t
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(x)
    if isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant')
        return z3.RealVal(repr(x))
    if z3.is_expr(x):
        return x
    import numpy as np
    if isinstance(x, np.bool_):
        return z3.BoolVal(bool(x))
    if isinstance(x, np.integer):
        return z3.IntVal(int(x))
    if isinstance(x, np.floating):
        return lift(float(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    raise Unsupported('cannot lift %r' % type(x))


def to_z3bool(b):
    t = lift(b)
    if z3.is_bool(t):
        return t
    return t != 0


def wrap(t):
    """z3 term -> python value (constants folded) or symbolic scalar"""
    if z3.is_bool(t):
        t2 = z3.simplify(t)
        if z3.is_true(t2):
            return True
        if z3.is_false(t2):
            return False
        return SBool(t2)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_rational_value(t):
        return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_app(t) and t.num_args() > 0:
        # cheap constant folding only
        if all(z3.is_int_value(c) or z3.is_rational_value(c) for c in t.children()):
            t2 = z3.simplify(t)
            if z3.is_int_value(t2):
                return t2.as_long()
            if z3.is_rational_value(t2):
                return Fraction(t2.numerator_as_long(), t2.denominator_as_long())
    if z3.is_string(t):
        from .sstr import SStr
        return SStr(t)
    if z3.is_expr(t) and t.sort().kind() == z3.Z3_UNINTERPRETED_SORT and t.sort().name() == 'Text':
        from .ustr import UStr
        return UStr(t)
    return SNum(t)


def real(t):
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return z3.ToReal(t) if t.sort() == z3.IntSort() else t


def numeric(t):
    if z3.is_bool(t):
        return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t


def coerce2(a, b):
    a, b = numeric(a), numeric(b)
    if a.sort() != b.sort():
        a, b = real(a), real(b)
    return a, b


def is_zero(t):
    return (z3.is_int_value(t) and t.as_long() == 0) or (z3.is_rational_value(t) and t.numerator_as_long() == 0)


def is_one(t):
    return (z3.is_int_value(t) and t.as_long() == 1) or \
           (z3.is_rational_value(t) and t.numerator_as_long() == 1 and t.denominator_as_long() == 1)


def add(a, b):
    a, b = coerce2(a, b)
    if is_zero(a):
        return b
    if is_zero(b):
        return a
    return a + b


def sub(a, b):
    a, b = coerce2(a, b)
    if is_zero(b):
        return a
    return a - b


def mul(a, b):
    a, b = coerce2(a, b)
    if is_zero(a) or is_zero(b):
        return z3.IntVal(0) if a.sort() == z3.IntSort() else z3.RealVal(0)
    if is_one(a):
        return b
    if is_one(b):
        return a
    return a * b


def div(a, b):
    a, b = real(numeric(a)), real(numeric(b))
    if is_one(b):
        return a
    if is_zero(a):
        return a
    return a / b


def floordiv(a, b):
    a, b = numeric(a), numeric(b)
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
        if z3.is_int_value(b):
            return a / b if b.as_long() > 0 else (-a) / z3.IntVal(-b.as_long())
        if cur() is not None and cur().entails(b > 0):
            return a / b
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(real(a) / real(b)))


def mod(a, b):
    a, b = numeric(a), numeric(b)
    if a.sort() == z3.IntSort() and b.sort() == z3.IntSort():
        return a - b * floordiv(a, b)
    raise Unsupported('real modulo')


def trunc(t):
    t = numeric(t)
    if t.sort() == z3.IntSort():
        return t
    if z3.is_rational_value(t):
        return z3.IntVal(int(Fraction(t.numerator_as_long(), t.denominator_as_long())))
    # trunc of a term that is an integer turned real
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return t.arg(0)
    return z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t))


def pyround(t):
    t = numeric(t)
    if t.sort() == z3.IntSort():
        return t
    r = z3.ToInt(t + z3.RealVal('1/2'))
    return z3.If(z3.And(z3.ToReal(r) == t + z3.RealVal('1/2'), r % 2 != 0), r - 1, r)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.sort() != b.sort():
        if z3.is_bool(a) or z3.is_bool(b):
            raise Unsupported('ite of mixed sorts')
        a, b = real(a), real(b)
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def power(a, p):
    """a ** p for integer constants and 1/2"""
    if z3.is_int_value(p) or (z3.is_rational_value(p) and p.denominator_as_long() == 1):
        k = p.as_long() if z3.is_int_value(p) else p.numerator_as_long()
        if k == 0:
            return z3.IntVal(1)
        r = a
        for _ in range(abs(k) - 1):
            r = mul(r, a)
        return r if k > 0 else div(z3.IntVal(1), r)
    if z3.is_rational_value(p) and p.denominator_as_long() == 2:
        s = ufun('sqrt', a)
        return power(s, z3.IntVal(p.numerator_as_long()))
    raise Unsupported('power %s' % p)


UF = {}


def ufun(name, t):
    """uninterpreted real function with definitional axioms"""
    t = real(numeric(t))
    if name == 'sqrt' and z3.is_rational_value(t):
        import math
        n, d = t.numerator_as_long(), t.denominator_as_long()
        if n >= 0 and math.isqrt(n) ** 2 == n and math.isqrt(d) ** 2 == d:
            return z3.RealVal(Fraction(math.isqrt(n), math.isqrt(d)))
    if name == 'exp' and is_zero(t):
        return z3.RealVal(1)
    if name == 'log' and is_one(t):
        return z3.RealVal(0)
    if name not in UF:
        UF[name] = z3.Function('f_' + name, z3.RealSort(), z3.RealSort())
    return UF[name](t)


def compare(op, a, b):
    a, b = lift(a), lift(b)
    if z3.is_bool(a) and z3.is_bool(b):
        if op == '==':
            return a == b
        if op == '!=':
            return a != b
    a, b = coerce2(a, b)
    return {'==': lambda: a == b, '!=': lambda: a != b, '<': lambda: a < b, '<=': lambda: a <= b,
            '>': lambda: a > b, '>=': lambda: a >= b}[op]()


def _num(x):
    import numpy as np
    return isinstance(x, (SNum, SBool, int, float, Fraction, np.integer, np.floating, np.bool_))


def _binop(f):
    def m(self, o):
        if not _num(o):
            return NotImplemented
        return wrap(f(self.t, lift(o)))

    def r(self, o):
        if not _num(o):
            return NotImplemented
        return wrap(f(lift(o), self.t))

    return m, r


class SNum:
    """symbolic int or real"""
    __array_ufunc__ = None
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, t):
        self.t = t

    is_int = property(lambda s: s.t.sort() == z3.IntSort())

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(int) if self.is_int else np.dtype(float)

    __add__, __radd__ = _binop(add)
    __sub__, __rsub__ = _binop(sub)
    __mul__, __rmul__ = _binop(mul)
    __truediv__, __rtruediv__ = _binop(div)
    __floordiv__, __rfloordiv__ = _binop(floordiv)
    __mod__, __rmod__ = _binop(mod)

    def __pow__(self, p):
        if not _num(p):
            return NotImplemented
        return wrap(power(self.t, lift(p)))

    def __rpow__(self, a):
        raise Unsupported('symbolic exponent')

    def __neg__(self):
        return wrap(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.t >= 0, self.t, -self.t))

    def _cmp(op):
        def m(self, o):
            if o is None or isinstance(o, str):
                if op == '==':
                    return False
                if op == '!=':
                    return True
                return NotImplemented
            if isinstance(o, float) and o in (float('inf'), float('-inf')):
                # symbolic numbers are finite
                return op == '!=' or (op in ('<', '<=')) == (o > 0) and op != '=='
            if not _num(o):
                return NotImplemented
            return wrap(compare(op, self, o))
        return m

    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')
    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')
    del _cmp
    def __hash__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return hash(v.as_long())
        raise Unsupported('symbolic number as a dictionary key')

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __int__(self):
        raise Unsupported('int() of a symbolic number outside the shim')

    def __float__(self):
        raise Unsupported('float() of a symbolic number')

    def __index__(self):
        v = z3.simplify(self.t)
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('symbolic number used as a concrete index')

    def __round__(self, nd=None):
        if nd is not None:
            raise Unsupported('round to digits')
        return wrap(pyround(self.t))

    def __trunc__(self):
        return wrap(trunc(self.t))

    def astype(self, ty):
        if ty is int:
            return wrap(trunc(self.t))
        return wrap(real(self.t))

    def item(self):
        return self

    def copy(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return 'S<%s>' % str(self.t)[:80]

    def __str__(self):
        raise Unsupported('formatting a symbolic number')

    __format__ = None

    def __format__(self, spec):
        raise Unsupported('formatting a symbolic number')


class SBool:
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(z3.And(self.t, lift(o)))
        return NotImplemented

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(z3.Or(self.t, lift(o)))
        return NotImplemented

    __ror__ = __or__

    def __invert__(self):
        return wrap(z3.Not(self.t))

    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return wrap(self.t == lift(o))
        if _num(o):
            return wrap(compare('==', wrap(numeric(self.t)), o))
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return wrap(z3.Not(lift(r)))

    __hash__ = object.__hash__

    def __add__(self, o):
        return wrap(numeric(self.t)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return wrap(numeric(self.t)) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return 'SB<%s>' % str(self.t)[:80]


def subst(t, pairs):
    return z3.substitute(t, *pairs)
