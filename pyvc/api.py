"""Contracts: one text, three executions.

A contract is a function of a context `c`.  It builds arbitrary inputs satisfying the precondition, calls the
real function, and states postconditions with c.check*.  It is executed
  proof    : symbolic inputs of symbolic size; every check is an obligation for the SMT back end
  bounded  : symbolic inputs of small concrete sizes (all sizes of the stated range); used to find counter-models
             and as a labelled stand-in where the unbounded proof is out of reach
  concrete : real numpy inputs on the unmodified modules (random/directed search, or replay of a counter-model)
"""
import importlib
import inspect
import math
import os
import random
import re
import signal
import sys
import tempfile
import time
import traceback

import numpy as np

REG = {}


class Contract:
    def __init__(self, prop, name, fn, functions, **kw):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.functions = functions
        self.proof = kw.get('proof', True)        # attempt the unbounded proof
        self.bounded = kw.get('bounded', True)    # symbolic execution at small sizes makes sense
        self.concrete = kw.get('concrete', True)
        self.runs = kw.get('runs', 300)            # concrete executions in the quick tier
        self.timeout = kw.get('timeout', 120)
        self.assumes = kw.get('assumes', [])
        self.note = kw.get('note', '')
        self.overrides = kw.get('overrides', None)
        self.symbolic = kw.get('symbolic', True)
        self.paths = kw.get('paths', 400)


def contract(prop, name, functions, **kw):
    def d(fn):
        REG.setdefault(prop, {})[name] = Contract(prop, name, fn, functions, **kw)
        return fn
    return d


class Skip(Exception):
    """precondition not met by this concrete input"""


class Failed(Exception):
    def __init__(self, name, msg):
        self.name = name
        self.msg = msg
        super().__init__('%s: %s' % (name, msg))


# ============================================================================================ concrete
class Conc:
    concrete = True
    mode = 'concrete'

    grow = 1

    def __init__(self, rng, given=None):
        self.rng = rng
        self.given = given
        self.inputs = {}
        self.memo = {}
        self.checks = 0
        self.npr = np.random.RandomState(rng.randrange(2 ** 31))

    def _in(self, name, make):
        if name in self.memo:
            return self.memo[name]
        if self.given is not None and name in self.given:
            v = self.given[name]
            if isinstance(v, dict) and v.get('__nd__'):
                v = np.array(v['data'], dtype=v['dtype']).reshape(v['shape'])
        else:
            v = make()
        if isinstance(v, np.ndarray):
            self.inputs[name] = {'__nd__': True, 'data': v.tolist(), 'dtype': str(v.dtype), 'shape': list(v.shape)}
        elif isinstance(v, (np.integer,)):
            v = int(v)
            self.inputs[name] = v
        elif isinstance(v, (np.floating,)):
            v = float(v)
            self.inputs[name] = v
        else:
            self.inputs[name] = v
        if not isinstance(v, np.ndarray):
            self.memo[name] = v
        return v

    def module(self, name):
        return importlib.import_module(name)

    def dim(self, name, lo=1, small=(1, 2, 3), hi=12):
        return self._in(name, lambda: self.rng.choice([lo, lo + 1, lo + 2, self.rng.randint(lo, max(hi * self.grow, lo + 2))]))

    def partial(self, cls):
        """an object of a class of the repository made without its constructor: the contract sets the attributes it has"""
        self.__dict__.setdefault('partials', set()).add(cls)
        return cls.__new__(cls)

    def flag(self, name):
        return self._in(name, lambda: self.rng.random() < 0.5)

    def option(self, name, opts):
        return opts[self._in(name, lambda: self.rng.randrange(len(opts)))]

    def int(self, name, lo=None, hi=None, gen=None):
        l = -5 if lo is None else lo
        h = l + 20 if hi is None else hi
        v = self._in(name, gen or (lambda: self.rng.randint(l, h)))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Skip()
        return v

    def real(self, name, lo=None, hi=None, pos=False, gen=None):
        def g():
            if gen:
                return gen()
            if lo is not None and hi is not None:
                return self.rng.choice([lo + (hi - lo) * self.rng.random(), lo + (hi - lo) * self.rng.random(),
                                        lo + (hi - lo) * self.rng.choice([0.25, 0.5, 0.75])])
            if pos:
                return self.rng.choice([1.0, 0.5, 2.0, self.rng.expovariate(1) + 1e-3])
            return self.rng.choice([0.0, 1.0, -1.0, self.rng.gauss(0, 1), self.rng.gauss(0, 10)])
        v = float(self._in(name, g))
        if (lo is not None and v < lo) or (hi is not None and v > hi) or (pos and v <= 0):
            raise Skip()
        return v

    def array(self, name, dims, kind='r', pred=None, gen=None):
        if not isinstance(dims, tuple):
            dims = (dims,)

        def make():
            r = self.npr
            if gen is not None and not isinstance(gen, str):
                return gen(r, dims)
            if gen == 'weight':
                style = r.randint(4)
                if style == 0:
                    return np.ones(dims)
                if style == 1:
                    return r.randint(1, 6, dims).astype(float)
                if style == 2:
                    return r.randint(0, 4, dims).astype(float)
                return r.random_sample(dims) * 3
            if kind == 'b':
                return r.random_sample(dims) < r.choice([0.2, 0.5, 0.8])
            if kind == 'i':
                return r.randint(-3, 8, dims)
            style = r.randint(4)
            if style == 0:
                return r.randint(-3, 4, dims).astype(float)
            if style == 1:
                return r.normal(0, 1, dims)
            if style == 2:
                return 10 ** r.uniform(-2, 2) * r.normal(0, 1, dims) + r.normal(0, 3)
            return r.uniform(0, 1, dims)
        v = self._in(name, make)
        v = np.array(v, dtype={'r': float, 'i': int, 'b': bool}[kind])
        if pred is not None:
            for x in v.reshape(-1):
                if not pred(x):
                    raise Skip()
        return v

    def fresh_copy(self, a):
        return a.copy()

    def assume(self, cond):
        if not cond:
            raise Skip()

    def assume_all(self, n, f):
        for i in range(int(n)):
            if not f(i):
                raise Skip()

    # spec operations
    def sum(self, n, f):
        return math.fsum(f(i) for i in range(int(n)))

    def prefix(self, a):
        t = np.concatenate([[0], np.cumsum(a)])
        return lambda r: t[int(r)]

    def at(self, a, *i):
        return a[tuple(int(x) for x in i)] if len(i) > 1 else a[int(i[0])]

    def sqrt(self, x):
        return math.sqrt(max(x, 0)) if x > -1e-12 else float('nan')

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def ite(self, c, a, b):
        return a if c else b

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Not(self, a):
        return not a

    def Implies(self, a, b):
        return (not a) or b

    def min(self, n, f):
        return min(f(i) for i in range(int(n)))

    def max(self, n, f):
        return max(f(i) for i in range(int(n)))

    def forall(self, n, f):
        return all(f(i) for i in range(int(n)))

    def trunc(self, x):
        return int(x)

    # checks
    def check(self, name, cond, msg=''):
        self.checks += 1
        if not cond:
            raise Failed(name, msg() if callable(msg) else msg)

    def close(self, a, b, scale=0.0, rtol=1e-7):
        a, b = float(a), float(b)
        if a == b or (a != a and b != b):
            return True
        return abs(a - b) <= rtol * max(abs(a), abs(b)) + 1e-10 * max(1.0, abs(scale))

    def check_eq(self, name, a, b, scale=0.0, rtol=1e-7):
        self.checks += 1
        try:
            ok = self.close(a, b, scale, rtol)
        except (TypeError, ValueError):
            ok = False
        if not ok:
            raise Failed(name, 'got %r, expected %r' % (a, b))

    def check_is(self, name, a, b):
        self.checks += 1
        if a is not b:
            raise Failed(name, 'got %r, expected %r' % (a, b))

    def check_arr(self, name, a, dims, f, scale=0.0, rtol=1e-7):
        """a has the given dims and a[i..] == f(i..) everywhere"""
        self.checks += 1
        if not isinstance(dims, tuple):
            dims = (dims,)
        dims = tuple(int(d) for d in dims)
        a = np.asarray(a)
        if a.shape != dims:
            raise Failed(name, 'shape %s, expected %s' % (a.shape, dims))
        for ix in np.ndindex(*dims):
            e = f(*ix)
            if not self.close(a[ix], e, scale, rtol):
                raise Failed(name, 'at %s: got %r, expected %r' % (ix, a[ix], e))

    def check_rows(self, name, a, n, keep, f, dims=(), scale=0.0):
        rows = [i for i in range(int(n)) if keep(i)]
        self.check_arr(name, a, (len(rows),) + tuple(dims), lambda r, *x: f(rows[r], *x), scale)

    def raises(self, excs, f):
        try:
            f()
        except excs:
            return True
        except Skip:
            raise
        return False

    def track(self, *o):
        pass

    def stub(self, *a, **k):
        pass

    def library(self, *a, **k):
        pass

    def lemma(self, *a, **k):
        pass

    def isnone(self, x):
        return x is None

    def length(self, x):
        return len(x)


class TooLong(BaseException):
    pass


CPU_LIMIT = 45  # seconds of processor time for one execution that takes at most a few seconds on the original tree
SIGNATURE = re.compile(r'positional argument|unexpected keyword|keyword-only|required argument|got multiple values')


def _repo_object(o):
    mod = getattr(o, '__name__', '') if inspect.ismodule(o) else getattr(o if inspect.isclass(o) else type(o), '__module__', '') or ''
    f = getattr(sys.modules.get(mod), '__file__', '') or ''
    return '/repo/' in f


def _state_attribute(o, name):
    """an attribute that methods of the class set on self: an object made without its constructor may lack it"""
    for k in type(o).__mro__:
        try:
            if k is not object and re.search(r'\bself\.%s\b[^=\n]*=[^=]' % re.escape(name), inspect.getsource(k)):
                return True
        except (OSError, TypeError):
            pass
    return False


def _partial(c, o):
    return isinstance(o, tuple(c.__dict__.get('partials', ())))


def _classify(c, e):
    """is an exception of an execution one of the code under contract ('fail', name) or one of the harness (None)?"""
    tb = traceback.extract_tb(e.__traceback__)
    inrepo = any('/repo/' in fr.filename for fr in tb)
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if o is not None and _repo_object(o):
            if inspect.ismodule(o) or inspect.isclass(o):
                return 'no-exception' if inrepo else None
            if _partial(c, o) and _state_attribute(o, e.name):
                return None
            if not inrepo:
                # a public attribute the object should have
                return None if e.name.startswith('_') or _partial(c, o) else 'attribute'
    if inrepo:
        return 'no-exception'
    if isinstance(e, FileNotFoundError) and e.filename and (not os.path.isabs(os.fspath(e.filename)) or os.fspath(e.filename).startswith(tempfile.gettempdir())):
        return 'file-written'       # a result file the code was to leave in the scratch folder
    if isinstance(e, (ImportError, OSError, MemoryError, RecursionError)) or isinstance(e, TypeError) and SIGNATURE.search(str(e)):
        return None
    # the code returned something its caller cannot use
    return 'usable-result' if isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError, ArithmeticError)) else None


def _alarm(*a):
    raise TooLong()


def run_concrete(con, seed, given=None, grow=1):
    """one concrete execution: ('ok', checks, inputs) | ('skip',) | ('fail', name, msg, inputs) | ('error', text, inputs)"""
    c = Conc(random.Random(seed), given)
    c.grow = grow
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        con.fn(c)
        return ('ok', c.checks, c.inputs)
    except Skip:
        return ('skip',)
    except Failed as e:
        return ('fail', e.name, e.msg, c.inputs)
    except TooLong as e:
        tb = traceback.extract_tb(e.__traceback__)
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        if any('/repo/' in fr.filename for fr in tb):
            return ('fail', 'terminates', 'no result after %d s of processor time\n%s' % (CPU_LIMIT, text), c.inputs)
        return ('error', text, c.inputs)
    except (Exception, SystemExit) as e:
        text = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        name = _classify(c, e)
        if name:
            return ('fail', name, '%s: %s\n%s' % (type(e).__name__, e, text), c.inputs)
        return ('error', text, c.inputs)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
