CH = 'python/getdist/chains.py'
DE = 'python/getdist/densities.py'
CV = 'python/getdist/convolve.py'
PN = 'python/getdist/paramnames.py'
PB = 'python/getdist/parampriors.py'
IN = 'python/getdist/inifile.py'
CM = 'python/getdist/covmat.py'
GM = 'python/getdist/gaussian_mixtures.py'
CO = 'python/getdist/cobaya_interface.py'
CL = 'python/CMBlikes.py'
JQ = 'python/paramgrid/jobqueue.py'
PRE = "import numpy as np\nfrom getdist.chains import WeightedSamples, Chains\nr=np.random.RandomState(1)\n"
SEEDS = [
 dict(id='c02-minweight-order', property='C02', needs='loading samples with a minimum weight ratio, where the removed rows are not at the end',
      breaks='the wrong rows are kept: rows are ordered by weight when any is dropped, losing the chain order',
      edits=[(CH, "                self.filter(self.weights > max_weight * min_weight_ratio)",
              "                order = np.argsort(self.weights)[::-1]\n                self.filter(order[:np.count_nonzero(self.weights > max_weight * min_weight_ratio)])")],
      demo=PRE + """X=np.arange(12.).reshape(6,2); w=np.array([1,5,1e-40,2,3,4.])
s=WeightedSamples(samples=X.copy(),weights=w.copy(),loglikes=np.arange(6.))
s.setMinWeightRatio(1e-30)
assert np.array_equal(s.samples[:,0],[0,2,6,8,10]) and np.array_equal(s.loglikes,[0,1,3,4,5])
"""),
 dict(id='c03-cool-inplace', property='C03', needs='a statistic that was read before cooling the samples',
      breaks='means read before cooling are still reported afterwards',
      edits=[(CH, "        self.loglikes = newL\n        self._weightsChanged()", "        self.loglikes = newL\n        self.norm = np.sum(self.weights)")],
      demo=PRE + """X=r.randn(40,2); L=r.rand(40)*5
s=WeightedSamples(samples=X,weights=np.ones(40),loglikes=L)
s.getMeans(); s.getCov()
s.cool(2.)
assert np.allclose(s.getMeans(), np.average(X,axis=0,weights=np.exp(-L)))
"""),
 dict(id='c04-block-carry', property='C04', needs='a row spanning several blocks that starts with part of a block carried over',
      breaks='the unused part of the row that completes a block is counted without the carried weight',
      edits=[(CH, "                        mult -= (factor - tot)\n                    tot = 0", "                        mult -= factor\n                    tot = 0")],
      demo=PRE + """w=np.array([2,7,1,6.])
got=list(WeightedSamples.thin_indices_single_samples(3,w))
rep=np.repeat(np.arange(4),w.astype(int))
assert got==list(rep[2::3]), got
"""),
 dict(id='c05-reweight-shared', property='C05', needs='two sample sets made from the same arrays, one reweighted',
      breaks="reweighting changes the likelihoods of the caller's array and of the other set",
      edits=[(CH, "            self.loglikes = self.loglikes + logLikes\n", "            self.loglikes += logLikes\n")],
      demo=PRE + """X=r.randn(20,2); L=r.rand(20); L0=L.copy()
s=WeightedSamples(samples=X,weights=np.ones(20),loglikes=L)
s.reweightAddingLogLikes(r.rand(20))
assert np.array_equal(L,L0)
"""),
 dict(id='c06-offset-filter', property='C06', needs='filtering combined chains so that one chain keeps no rows, then separating',
      breaks='separate chains recovered after a filter contain rows of the next chain',
      edits=[(CH, "        self.chain_offsets = np.cumsum(np.array([0] + [chain.samples.shape[0] for chain in self.chains]))",
              "        self.chain_offsets = np.unique(np.cumsum(np.array([0] + [chain.samples.shape[0] for chain in self.chains])))")],
      demo=PRE + """from getdist import MCSamples
s=Chains(names=['a','b'])
s.chains=[WeightedSamples(samples=r.rand(n,2),weights=np.full(n,2.)) for n in (4,3,5)]
s.makeSingle()
s.filter(np.array([True]*4+[False]*3+[True]*5))
s.weighted_thin(2)
sep=s.getSeparateChains()
assert [c.numrows for c in sep]==[4,0,5], [c.numrows for c in sep]
"""),
 dict(id='c07-start-weights', property='C07', needs='limits from a row range that does not start at the first row, with unequal weights',
      breaks='samples of the range are counted with the weights of other rows',
      edits=[(CH, "cumsum=np.cumsum(weights[start + indices]))", "cumsum=np.cumsum(weights[indices]))")],
      demo=PRE + """x=np.array([5.,1,2,3,4,6]); w=np.array([100.,1,1,1,1,1])
s=WeightedSamples(samples=x.reshape(-1,1),weights=w)
assert s.confidence(x,0.5,start=1)==3, s.confidence(x,0.5,start=1)
"""),
 dict(id='c08-contour-sort', property='C08', needs='a density that is large at the edge of the grid',
      breaks='contour levels of a density cut by an edge do not enclose the requested probability',
      edits=[(DE, "    indexes = inbins.reshape(-1).argsort()\n    sortgrid = inbins.reshape(-1)[indexes]", "    indexes = bins.argsort()\n    sortgrid = inbins.reshape(-1)[indexes]")],
      demo="""import numpy as np
from getdist.densities import getContourLevels
x=np.linspace(0,3,60); y=np.linspace(0,3,50)
P=np.exp(-(x[None,:]**2+ y[:,None]**2)/2)
w=np.ones_like(P); w[0]/=2; w[-1]/=2; w[:,0]/=2; w[:,-1]/=2
for c in (0.3,0.68,0.95):
    l=getContourLevels(P,[c])[0]
    f=np.sum((P*w)[P>=l])/np.sum(P*w)
    assert abs(f-c)<0.004, (c,f)
"""),
 dict(id='c08-limit-top', property='C08', needs='a density with a second, lower peak inside the upper tail',
      breaks='the upper credible limit stops at the first crossing instead of the last',
      edits=[(DE, "                i = g.bign - np.argmax(g.grid[::-1] > trial) - 1\n", "                i = np.argmax(g.grid) + np.argmax(g.grid[np.argmax(g.grid):] <= trial) - 1\n")],
      demo="""import numpy as np
from getdist.densities import Density1D
x=np.linspace(-5,12,400)
P=np.exp(-x**2/2)+0.5*np.exp(-(x-6)**2/2)
d=Density1D(x,P)
mn,mx,a,b=d.getLimits(0.95)
assert mx>7, mx
"""),
 dict(id='c10-valid-swap', property='C10', needs='a valid-mode FFT convolution of large arrays where the kernel is longer than the data, or an even-length kernel in same mode',
      breaks='same-mode result is shifted by one for even-length kernels',
      edits=[(CV, "        return res[(y.size - 1) // 2:(y.size - 1) // 2 + x.size]", "        return res[y.size // 2:y.size // 2 + x.size]")],
      demo="""import numpy as np
from getdist.convolve import convolve1D
r=np.random.RandomState(1)
x=r.rand(1500); y=r.rand(1002)
assert np.allclose(convolve1D(x,y,'same'),np.convolve(x,y,'same'))
"""),
 dict(id='c10-cache-key', property='C10', needs='one cache used for different padded sizes with the same arrays',
      breaks='a cached transform of another padded size is used',
      edits=[(CV, "            key = (tuple(fsize), tuple(in1.shape), id(in1))", "            key = (tuple(fsize), id(in1.base if in1.base is not None else in1))")],
      demo="""import numpy as np
from getdist.convolve import convolve2D
r=np.random.RandomState(1)
big=r.rand(31,31); k=r.rand(7,7); c={}
a=big[:20,:20]; b=big[5:25,5:25]
for x in (a,b):
    got=convolve2D(x,k,'same',cache=c); exp=convolve2D(x,k,'same')
    assert np.allclose(got,exp)
"""),
 dict(id='c11-corr-norm', property='C11', needs='autocorrelation in weight units of samples with unequal weights and a lag range',
      breaks='correlation lengths of weighted chains',
      edits=[(CH, "            if corr[0] < min_corr * 1e9:" , "")] if False else [],
      demo=""),
 dict(id='c12-filtered-shared', property='C12', needs='a name that is an alias of one parameter and is looked up after the parameter order changed',
      breaks='a name that is a prefix of another parameter finds that one',
      edits=[(PN, "        for i, par in enumerate(self.names):\n            if par.name == name:\n                return i\n        return -1",
              "        names = self.list()\n        for match in (name, name.strip()):\n            if match in names:\n                return names.index(match)\n        return -1")] if False else
            [(PN, "        self.names = [name for i, name in enumerate(self.names) if i not in indices]",
              "        for i, ix in enumerate(indices):\n            self.names = self.names[:max(ix - i, 0)] + self.names[ix - i + 1:]")],
      demo="""from getdist.paramnames import ParamNames
p=ParamNames(names=['a','b','c','d','e'])
p.deleteIndices([3,1])
assert p.list()==['a','c','e'], p.list()
"""),
 dict(id='c12-alias-prefix', property='C12', needs='an alias given as a single string for a parameter',
      breaks='a parameter is found by any letter of its alias',
      edits=[(PN, "            known_names = set([par.name] + list(makeList(getattr(par, 'renames', []))) +",
              "            known_names = set([par.name] + list(getattr(par, 'renames', [])) +")],
      demo="""from getdist.paramnames import ParamNames
p=ParamNames(names=['omegam','s8'])
p.names[1].renames='sigma8'
assert p.parWithName('sigma8') is p.names[1]
assert p.parWithName('g') is None
"""),
 dict(id='c13-zero-limit', property='C13', needs='a limit that is exactly zero',
      breaks='a zero upper or lower limit is written as unbounded',
      edits=[(PB, "            valMax = self.getUpper(name)\n            if valMax is not None:", "            valMax = self.getUpper(name)\n            if valMax:")],
      demo="""import sys,os
from getdist.parampriors import ParamBounds
b=ParamBounds(); b.setRange('a',(-1,0)); b.setRange('b',(0,1))
f=os.path.join(sys.argv[1],'x.ranges'); b.saveToFile(f)
c=ParamBounds(f)
assert c.getUpper('a')==0 and c.getLower('b')==0
"""),
 dict(id='c14-default-nested', property='C14', needs='a DEFAULT file that INCLUDEs another file setting a key already set',
      breaks='including a file from a DEFAULT file raises a duplicate-key error',
      edits=[(IN, "                        self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=if_not_defined)",
              "                        self.readFile(os.path.join(os.path.dirname(filename), ffile))")],
      demo="""import sys,os
from getdist.inifile import IniFile
d=sys.argv[1]
open(d+'/a.ini','w').write('DEFAULT(b.ini)\\nx=1\\n')
open(d+'/b.ini','w').write('INCLUDE(c.ini)\\ny=2\\n')
open(d+'/c.ini','w').write('x=5\\nz=3\\n')
i=IniFile(d+'/a.ini')
assert i.params=={'x':'1','y':'2','z':'3'}, i.params
"""),
 dict(id='c14-hash-value', property='C14', needs='reading a file where a line after END looks like a setting',
      breaks='settings after END are read',
      edits=[(IN, "                    if s == 'END':\n                        break", "                    if line == 'END':\n                        break")],
      demo="""import sys,os
from getdist.inifile import IniFile
d=sys.argv[1]
open(d+'/a.ini','w').write('x=1\\nEND\\ny=1\\n')
assert IniFile(d+'/a.ini').params=={'x':'1'}
"""),
 dict(id='c15-merge-map', property='C15', needs='merging matrices that share parameters in a different order',
      breaks='entries of new parameters are taken from the wrong row of the second matrix',
      edits=[(CM, "                elif C.paramNames[i] in params2 and C.paramNames[j] in params2:\n                    C.matrix[i, j] = cov2.matrix[map2[covmap[i]], map2[covmap[j]]]",
              "                elif C.paramNames[i] in params2 and C.paramNames[j] in params2:\n                    C.matrix[i, j] = cov2.matrix[map2[covmap[max(i, j)]], map2.get(covmap[min(i, j)], j) if i != j else i - l1 + len(set(params1) & set(params2))]")],
      demo="""import numpy as np
from getdist.covmat import CovMat
r=np.random.RandomState(1)
A=r.rand(2,2); A=A+A.T; B=r.rand(3,3); B=B+B.T
a=CovMat(matrix=A,paramNames=['x','y']); b=CovMat(matrix=B,paramNames=['z','y','t'])
m=a.mergeCovmatWhereNew(b)
n=m.paramNames
for i,p in enumerate(n):
    for j,q in enumerate(n):
        e = A[['x','y'].index(p),['x','y'].index(q)] if p in 'xy' and q in 'xy' else (B[['z','y','t'].index(p),['z','y','t'].index(q)] if p in 'zyt' and q in 'zyt' else 0)
        assert m.matrix[i,j]==e,(p,q)
"""),
 dict(id='c18-readd-order', property='C18', needs='resubmitting a job name under a new id and then deleting the new id',
      breaks='the job name maps to a deleted id after the resubmission is deleted',
      edits=[(JQ, "                del (self.jobSettings[jobId])\n", "                if self.jobNames.get(j.jobName) == jobId:\n                    del (self.jobSettings[jobId])\n")],
      demo="""from paramgrid.jobqueue import jobIndex
class J: pass
def mk(i,n):
    j=J(); j.jobId=i; j.jobName=n; j.names=[n+'_r']; return j
x=jobIndex()
x.addJob(mk('1','a')); x.addJob(mk('2','a'))
try:
    x.delId('1')
except Exception: pass
assert '1' not in x.jobSettings and x.jobNames=={'a':'2'} and x.jobSequence==['2'], x.__dict__
"""),
 dict(id='c19-theory-order', property='C19', needs='a cross spectrum of fields declared in the other order',
      breaks='lower-triangle elements are not mirrored for three or more maps',
      edits=[(CL, "            M[0:i, i] = X[ix:ix + i]\n            ix += i\n", "            ix += i\n            M[0:i, i] = X[ix - 1:ix]\n")],
      demo="""import numpy as np
from CMBlikes import DatasetLikelihood
l=DatasetLikelihood.__new__(DatasetLikelihood); l.nmaps=3
M=np.zeros((3,3)); l.elements_to_matrix(np.arange(1.,7),M)
assert np.array_equal(M,M.T)
"""),
 dict(id='c19-calib-cross', property='C19', needs='a calibration parameter and a CMB-lensing cross spectrum',
      breaks='the calibration is applied to spectra it does not belong to',
      edits=[(CL, "                        if CL.theory_ij[0] <= 2 and CL.theory_ij[1] <= 2:\n                            CL.CL /= data_params[self.calibration_param] ** 2",
              "                        if CL.theory_ij[0] <= 2 or CL.theory_ij[1] <= 2:\n                            CL.CL /= data_params[self.calibration_param] ** 2")],
      demo="""import numpy as np
from CMBlikes import DatasetLikelihood
class O: pass
l=DatasetLikelihood.__new__(DatasetLikelihood); l.aberration_coeff=0; l.calibration_param='c'; l.nmaps_required=2
cls=np.empty((2,2),dtype=object)
for (i,j),t in {(0,0):(0,0),(1,0):(0,3),(1,1):(3,3)}.items():
    o=O(); o.theory_ij=t; o.CL=np.ones(3); cls[i,j]=o
l.adapt_theory_for_maps(cls,{'c':2.})
assert cls[0,0].CL[0]==.25 and cls[1,0].CL[0]==1 and cls[1,1].CL[0]==1
"""),
 dict(id='c20-cond-order', property='C20', needs='conditioning on parameters given in other than increasing order',
      breaks='fixed values are matched with the wrong parameters',
      edits=[(GM, "        fixed_params = self._params_to_indices(fixed_params)\n        self.checkNoLimits(fixed_params)", "        fixed_params = sorted(self._params_to_indices(fixed_params))\n        self.checkNoLimits(fixed_params)")],
      demo="""import numpy as np
from getdist.gaussian_mixtures import MixtureND
r=np.random.RandomState(1)
A=r.rand(3,3); C=A.dot(A.T)+np.eye(3)
m=MixtureND([r.rand(3)],[C],names=['a','b','c'])
p=m.conditionalMixture(['c','a'],[2.,-1.]); q=m.conditionalMixture(['a','c'],[-1.,2.])
assert np.allclose(p.total_mean,q.total_mean)
"""),
 dict(id='c21-remove-str', property='C21', needs='a description whose post block removes a prior, read twice',
      breaks="reading changes the caller's description",
      edits=[(CO, "    likes = list(info.get(_likelihood))\n", "    likes = info.get(_likelihood)\n    likes = likes if isinstance(likes, list) else list(likes)\n")],
      demo="""from getdist.cobaya_interface import get_info_params
import copy
info={'params':{'a':{'prior':[0,1]}},'likelihood':['l1','l2'],'post':{'remove':{'likelihood':'l1'}}}
c=copy.deepcopy(info)
get_info_params(info)
assert info==c, info
"""),
 dict(id='c23-chain-index', property='C23', needs='saving with a root name that contains .txt inside',
      breaks='the second and later chains overwrite one another',
      edits=[(CH, "        np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',",
              "        np.savetxt(root + ('_' + str(chain_index + 1) if chain_index else '') + '.txt',")],
      demo=PRE + """import sys,os
d=sys.argv[1]
for i in range(2):
    WeightedSamples(samples=r.rand(3,2),weights=np.ones(3)).saveAsText(d+'/c',chain_index=i)
assert sorted(os.listdir(d))==['c_1.txt','c_2.txt'], os.listdir(d)
"""),
]
SEEDS = [s for s in SEEDS if s['edits']]
MC = 'python/getdist/mcsamples.py'
TY = 'python/getdist/types.py'
BJ = 'python/paramgrid/batchjob.py'
SEEDS += [
 dict(id='c05-scale-first', property='C05', needs='added likelihoods whose range exceeds a few hundred',
      breaks='weights overflow to infinity',
      edits=[(CH, "        scale = np.min(logLikes)\n", "        scale = np.mean(logLikes)\n")],
      demo=PRE + """X=r.randn(20,2); L=np.full(20,2000.); L[3]=0
s=WeightedSamples(samples=X,weights=np.ones(20),loglikes=np.zeros(20))
s.reweightAddingLogLikes(L)
assert np.all(np.isfinite(s.weights)), s.weights
"""),
 dict(id='c11-corr-norm', property='C11', needs='autocorrelation of samples with unequal weights',
      breaks='normalised autocorrelation and effective sample numbers of weighted chains',
      edits=[(CH, "            corr /= self.var(paramVec)\n", "            corr /= corr[0]\n")],
      demo=PRE + """x=r.randn(500); w=r.randint(1,6,500).astype(float)
s=WeightedSamples(samples=x.reshape(-1,1),weights=w)
d=(x-np.average(x,weights=w))*w
v=np.average((x-np.average(x,weights=w))**2,weights=w)
e=np.array([np.sum(d[:500-k]*d[k:])/(500-k) for k in range(5)])/v*500/w.sum()
assert np.allclose(s.getAutocorrelation(0,4),e)
"""),
 dict(id='c16-round-half', property='C16', needs='a number whose first dropped digit is exactly 5',
      breaks='such numbers are truncated instead of rounded',
      edits=[(TY, "    if len(digits) > sigfig and digits[sigfig] >= 5:", "    if len(digits) > sigfig and digits[sigfig] > 5:")],
      demo="""from getdist.types import numberFigs
assert numberFigs(1.257,2)=='1.3', numberFigs(1.257,2)
"""),
 dict(id='c17-normed-inplace', property='C17', needs='normalising the name of a data set and extending it afterwards',
      breaks='asking for the normalised tag reorders the names of the data set, so later names depend on the history',
      edits=[(BJ, '        return "_".join(sorted(self.namesReplacing(dic)))', '        names = self.namesReplacing(dic)\n        names.sort()\n        return "_".join(names)')],
      demo="""from paramgrid.batchjob import dataSet
d=dataSet(['plik','BAO']); d.makeNormedDatatag(None)
d.add('JLA')
assert d.tag=='plik_BAO_JLA', d.tag
"""),
 dict(id='c17-param-any', property='C17', needs='an exclusion listing several data set names of which an item has only some',
      breaks='hasAll is satisfied by items that lack some of the names',
      edits=[(BJ, "            return all([(i in self.names) for i in name])", "            return all([(i in self.tag) for i in name])")],
      demo="""from paramgrid.batchjob import dataSet
d=dataSet(['plikHM','BAO12'])
assert not d.hasAll(['plik','BAO'])
"""),
 dict(id='c22-ranges-stale', property='C22', needs='a change of the parameter names file between two loads, chains unchanged',
      breaks='the cached samples with the old parameter labels are returned',
      edits=[(MC, "    allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']",
              "    allfiles = files + [file_root + '.ranges', file_root + '.properties.ini']")],
      demo="""import sys,os,time
import numpy as np, getdist
from getdist.mcsamples import loadMCSamples
d=sys.argv[1]+'/ch'; os.mkdir(d); getdist.cache_dir=None
r=np.random.RandomState(1)
np.savetxt(d+'/c.txt',np.hstack([np.ones((50,1)),r.rand(50,3)]))
open(d+'/c.paramnames','w').write('a A\\nb B\\n')
loadMCSamples(d+'/c')
time.sleep(1.1)
open(d+'/c.paramnames','w').write('a A\\nbb BB\\n')
assert loadMCSamples(d+'/c').getParamNames().list()==['a','bb']
"""),
]
SEEDS = [s for s in SEEDS if s['id'] not in ('c05-reweight-shared', 'c12-alias-prefix', 'c22-ranges-stale')]
SEEDS += [
 dict(id='c22-relative-key', property='C22', needs='a shared cache directory and the same relative root loaded from two working directories',
      breaks='the cached samples of another directory are returned',
      edits=[(MC, "hashlib.md5(os.path.abspath(path).encode('utf-8'))", "hashlib.md5(os.path.normpath(path).encode('utf-8'))")],
      demo="""import sys,os
import numpy as np, getdist
from getdist.mcsamples import loadMCSamples
d=sys.argv[1]; getdist.cache_dir=d+'/cache'; os.mkdir(d+'/cache')
getdist.make_cache_dir=lambda: d+'/cache'
means=[]
for n in (1,2):
    os.makedirs(d+'/w%d/ch'%n); os.chdir(d+'/w%d'%n)
    np.savetxt('ch/c.txt',np.hstack([np.ones((50,1)),np.random.RandomState(n).rand(50,3)]))
    open('ch/c.paramnames','w').write('a A\\nb B\\n')
    for f in os.listdir('ch'): os.utime('ch/'+f,(1e9,1e9))
    means.append(loadMCSamples('ch/c').mean('a'))
assert means[0]!=means[1]
"""),
 dict(id='c09-border-swap', property='C09', needs='a parameter with a hard prior bound on one side only',
      breaks='the density grid does not end at the hard bound',
      edits=[(MC, "        binmax = max(par.param_max, par.range_max)\n        if not par.has_limits_top:\n            binmax += border",
              "        binmax = max(par.param_max, par.range_max)\n        if not par.has_limits:\n            binmax += border")],
      demo="""import numpy as np
from getdist import MCSamples
r=np.random.RandomState(1)
x=np.abs(r.randn(2000,1))
s=MCSamples(samples=x,names=['a'],ranges={'a':(0,None)})
d=s.get1DDensity('a')
assert d.x[0]==0 and d.x[-1]>x.max()*1.02, (d.x[-1],x.max())
"""),
 dict(id='c09-cache-temp', property='C09', needs='a smoothing width large enough for the FFT convolution, with the quadratic boundary correction',
      breaks='transforms cached for a temporary array are reused for another one at the same address',
      edits=[(MC, "xWin * kernel.x ** 2, 'valid', cache=cache, cache_args=[1])[ix]", "xWin * kernel.x ** 2, 'valid', cache=cache)[ix]"),
             (MC, "xWin * kernel.x ** 3, 'valid', cache=cache, cache_args=[1])[ix]", "xWin * kernel.x ** 3, 'valid', cache=cache)[ix]")],
      demo="""import numpy as np
import getdist.mcsamples as m
from getdist import MCSamples
r=np.random.RandomState(1)
s=MCSamples(samples=np.abs(r.randn(2000,1)),names=['a'],ranges={'a':(0,None)})
kw=dict(fine_bins=3000,smooth_scale_1D=0.5,boundary_correction_order=2,mult_bias_correction_order=0)
old=m.convolve1D
def f(x,y,mode,**k):
    res=old(x,y,mode,**k); e=np.convolve(x,y,mode)
    assert np.allclose(res,e,rtol=1e-6,atol=1e-9*np.abs(e).max()), (mode,np.abs(res-e).max())
    return res
m.convolve1D=f
s.get1DDensityGridData('a',**kw)
"""),
 dict(id='c12-glob', property='C12', needs='parameter names with upper and lower case letters and a glob pattern',
      breaks='globs match parameters whose names differ in case after a prefix lookup',
      edits=[(PN, "            if fnmatch.fnmatchcase(par.name, pattern):", "            if fnmatch.fnmatchcase(par.name, pattern) or fnmatch.fnmatchcase(par.label, pattern):")],
      demo="""from getdist.paramnames import ParamNames
p=ParamNames(names=['omegam','s8','tau'],labels=['s_m','x','y'])
assert [n.name for n in p.parsWithNames(['s*'])]==['s8']
"""),
]
