CH = 'python/getdist/chains.py'
PRE = "import numpy as np\nfrom getdist.chains import WeightedSamples\nr=np.random.RandomState(1)\n"
SEEDS = [
 dict(id='c01-covwhere-norm', property='C01', needs='cov() with a row filter', breaks='covariance of filtered rows is divided by the total weight of all rows',
      edits=[(CH, "        cov /= self.get_norm(where)\n        return cov", "        cov /= self.get_norm()\n        return cov")],
      demo=PRE + """X=r.randn(30,2); w=r.randint(1,4,30).astype(float)
s=WeightedSamples(samples=X,weights=w)
m=X[:,0]>0
e=np.cov(X[m].T,fweights=w[m].astype(int),bias=True)
assert np.allclose(s.cov(where=m),e), (s.cov(where=m),e)
"""),
 dict(id='c01-cachedvec', property='C01', needs='mean_diff with an int index after setDiffs and a row filter',
      breaks='deviations from the mean of a filtered parameter use the unfiltered mean',
      edits=[(CH, "        paramVec = self._makeParamvec(paramVec)\n        if where is None:\n            return paramVec - self.mean(paramVec)\n        else:\n            return paramVec[where] - self.mean(paramVec, where)",
              "        paramVec = self._makeParamvec(paramVec)\n        diff = paramVec - self.mean(paramVec)\n        return diff if where is None else diff[where]")],
      demo=PRE + """X=r.randn(30,2); w=r.randint(1,4,30).astype(float)
s=WeightedSamples(samples=X,weights=w)
m=X[:,0]>0
mu=np.average(X[m,0],weights=w[m])
assert np.isclose(s.var(0,m), np.average((X[m,0]-mu)**2,weights=w[m]))
"""),
 dict(id='c01-corr-fixed', property='C01', needs='a parameter with zero variance before the last one in a correlation matrix',
      breaks='correlations of parameters after a fixed parameter are left as covariances',
      edits=[(CH, "        if di:\n            cov[i, :] /= di\n            cov[:, i] /= di\n", "        if not di:\n            break\n        cov[i, :] /= di\n        cov[:, i] /= di\n")],
      demo=PRE + """from getdist.chains import covToCorr
C=np.array([[4.,0,1],[0,0,0],[1,0,9.]])
assert np.allclose(np.diag(covToCorr(C)),[1,0,1]), covToCorr(C)
"""),
]
