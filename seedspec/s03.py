CH = 'python/getdist/chains.py'
MC = 'python/getdist/mcsamples.py'
PL = 'python/getdist/plots.py'
CL = 'python/getdist/command_line.py'
PRE = """import logging, warnings
import numpy as np
warnings.simplefilter('ignore'); logging.disable(logging.CRITICAL)
from getdist import MCSamples, chains, plots
chains.print_load_details = False
r = np.random.RandomState(3)
def make(n=400, shift=0.):
    X = np.dot(r.randn(n, 3), [[1, .5, 0], [0, 1, .3], [0, 0, 1]]) + shift
    return MCSamples(samples=X, names=['a', 'b', 'q'], labels=['A', 'B', 'Q'], settings={'ignore_rows': 0, 'fine_bins_2D': 64})
"""
SEEDS = [
 dict(id='c24-power-law', property='C24', needs='principal components of a parameter mapped to its logarithm whose logarithm does not have unit spread',
      breaks='the power of the parameter printed for the component is multiplied by its spread, not divided by it',
      edits=[(MC, 'expo = "%f" % (1.0 / sd[j] * u[i][j])', 'expo = "%f" % (sd[j] * u[i][j])')],
      demo=PRE + """import re
x = r.randn(500, 2) * 0.3
X = np.exp(np.dot(x, [[1, .6], [0, .5]]))
s = MCSamples(samples=X, names=['a', 'b'], labels=['A', 'B'], settings={'ignore_rows': 0})
t = s.PCA(['a', 'b'], 'LL')
Y = np.log(X); sd = Y.std(axis=0)
rows = re.findall(r'\\[(\\S+)\\]\\s+\\((\\w)/(\\S+)\\)\\^\\{(\\S+)\\}', t)
assert len(rows) == 4, t
for (v, lab, div, expo), j in zip(rows, (0, 1, 0, 1)):
    assert abs(float(expo) - float(v) / sd[j]) < 1e-3, (v, expo, sd[j])
"""),
 dict(id='c24-thin-cool', property='C24', needs='thinned samples written by the program with thin_cool other than one',
      breaks='thinned samples are written with weights for a uniform density of samples, not relative to the one they were drawn from',
      edits=[(MC, "np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))", "np.exp(-(newL - MaxL * cool))")],
      demo=PRE + """import sys
X = r.randn(50, 2); L = np.sum(X ** 2, axis=1) / 2 + 1
s = MCSamples(samples=X, loglikes=L, weights=np.ones(50), names=['a', 'b'], settings={'ignore_rows': 0})
ix = s.thin_indices(3)
s.writeThinData(sys.argv[1] + '/t.txt', ix, cool=1.5)
t = np.loadtxt(sys.argv[1] + '/t.txt')
assert np.allclose(t[:, 1], L[ix] * 1.5, rtol=1e-5) and np.allclose(t[:, 2:], X[ix], rtol=1e-5)
w = np.exp(-(1.5 - 1) * L[ix])
assert np.allclose(t[:, 0] / t[:, 0].sum(), w / w.sum(), rtol=1e-4)
"""),
 dict(id='c25-stale-contours', property='C25', needs='the same pair plotted twice with another number of contours in between',
      breaks='the second plot has the number of contours of the first',
      edits=[(PL, "key = (param1.name, param2.name, likes, conts)", "key = (param1.name, param2.name, likes)")],
      demo=PRE + """from matplotlib.axes import Axes
lev = []
old = Axes.contour
def contour(self, *a, **k):
    lev.append(list(a[3])); return old(self, *a, **k)
Axes.contour = contour
s = make()
g = plots.get_single_plotter(width_inch=3)
for n in (2, 1, 2):
    g.settings.num_plot_contours = n
    g.new_plot()
    g.plot_2d(s, 'a', 'b')
    assert len(lev[-1]) == n, (n, lev[-1])
"""),
 dict(id='c25-removed-root', property='C25', needs='a root whose density was plotted, removed, changed on disk and loaded again',
      breaks='the plot shows the density of the samples before they were removed',
      edits=[(PL, "        self.densities_1D.pop(root, None)\n", "")],
      demo=PRE + """import sys, os
d = sys.argv[1] + '/chains'
os.mkdir(d)
def write(shift):
    np.savetxt(d + '/x_1.txt', np.hstack([np.ones((300, 2)), r.randn(300, 2) + shift]))
open(d + '/x.paramnames', 'w').write('a A\\nb B\\n')
write(0)
g = plots.get_single_plotter(chain_dir=d, width_inch=3, analysis_settings={'ignore_rows': 0})
g.plot_1d('x', 'a')
write(10)
g.sample_analyser.remove_root('x')
g.new_plot()
g.plot_1d('x', 'a')
x = g.get_axes().lines[0].get_xdata()
assert x.min() > 2, x.min()
"""),
 dict(id='c25-triangle-limits', property='C25', needs='a triangle plot with limits given for a parameter, or sets of different width',
      breaks='rows of the triangle do not have the limits of their parameter',
      edits=[(PL, "                if i != i2:\n                    ax.set_ylim(lims[i2])\n", "                if i != i2 and i2 == bottom:\n                    ax.set_ylim(lims[i2])\n")],
      demo=PRE + """s = make()
g = plots.get_subplot_plotter(subplot_size=1.5)
g.triangle_plot(s, ['a', 'b', 'q'], param_limits={'b': (-1.25, 1.75)})
for i in range(1):
    assert np.allclose(g.subplots[1, 0].get_ylim(), (-1.25, 1.75)), g.subplots[1, 0].get_ylim()
assert np.allclose(g.subplots[2, 1].get_xlim(), (-1.25, 1.75))
"""),
]
SEEDS = [s for s in SEEDS if s['edits']]
