#!/opt/venv/bin/python
"""engine self-test: a true contract must be proved, a false one refuted and replayed, a vacuous one noticed"""
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
os.environ.setdefault('MPLBACKEND', 'Agg')
sys.dont_write_bytecode = True
from pyvc import loader, sym, api
from pyvc.worker import proved
loader.install()
import getdist.chains
from contracts.common import ws


@api.contract('T', 'true', [])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    c.check_arr('means', b.s.getMeans(), (b.p,), lambda j: b.mean(j))


@api.contract('T', 'false', [])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    c.check_arr('means', b.s.getMeans(), (b.p,), lambda j: b.mean(j) * 2)


@api.contract('T', 'vacuous', [])
def _(c):
    b = ws(c, c.dim('n'), c.dim('p'))
    c.assume(b.W < 0)
    c.check_arr('means', b.s.getMeans(), (b.p,), lambda j: b.mean(j) * 2)


T = api.REG['T']
assert proved(sym.summary(sym.explore(T['true'], 'proof', 60)))
assert not proved(sym.summary(sym.explore(T['false'], 'proof', 60)))
r = sym.summary(sym.explore(T['false'], 'bounded', 60))
assert r['models'] and not proved(r)
assert not proved(sym.summary(sym.explore(T['vacuous'], 'proof', 60)))
print('engine self-test passed')
