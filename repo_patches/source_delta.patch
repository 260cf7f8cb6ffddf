From 516e21d0917dfac875981d5f986817bbd3982de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:18 +0000
Subject: [PATCH 01/91] fix: WeightedSamples.var ignored 'where' for a list of
 parameters

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 1a8507c..d06c9a9 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -677,7 +677,7 @@ class WeightedSamples:
         :return: parameter variance
         """
         if isinstance(paramVec, (list, tuple)):
-            return np.array([self.var(p) for p in paramVec])
+            return np.array([self.var(p, where) for p in paramVec])
         if where is not None:
             return np.dot(self.mean_diff(paramVec, where) ** 2, self.weights[where]) / self.get_norm(where)
         else:
-- 
2.43.0


From 7224f6c4202e0a8b70f551064409d11ee526e897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:26 +0000
Subject: [PATCH 02/91] fix: asking for logLikes of samples without them raised
 TypeError instead of WeightedSampleError

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d06c9a9..ffed747 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -328,7 +328,7 @@ class WeightedSamples:
                 return self.samples[:, par]
             elif par == -1:
                 if self.loglikes is None:
-                    raise WeightedSampleError('Samples do not have logLikes (par=-1)' % par)
+                    raise WeightedSampleError('Samples do not have logLikes (par=-1)')
                 return self.loglikes
             elif par == -2:
                 return self.weights
-- 
2.43.0


From 12f81cda116601d9da6a10bff80221f372455e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:16 +0000
Subject: [PATCH 03/91] fix: updating statistics failed when the
 best-likelihood sample holds more than the contour's weight

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 78da13a..ae56800 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2025,7 +2025,8 @@ class MCSamples(Chains):
         # get N-dimensional confidence region
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
-        m.ND_cont1, m.ND_cont2 = np.searchsorted(cumsum, self.norm * self.contours[0:2])
+        # at least one sample, when the best sample alone has more than the contour's weight
+        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * self.contours[0:2]))
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From 37c47537150ba954bf76b9c3bd93c7d7333388b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:11 +0000
Subject: [PATCH 04/91] fix: statistics queried after the samples or weights
 changed were stale or failed

---
 python/getdist/mcsamples.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index ae56800..7baf68f 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -524,6 +524,8 @@ class MCSamples(Chains):
         :param random_state: random seed or Generator
         :return: numpy array of selected weight-1 samples if no filename
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if single_thin is None:
             single_thin = max(1, self.norm / self.max_mult / self.max_scatter_points)
         random_state = np.random.default_rng(random_state)
@@ -578,6 +580,8 @@ class MCSamples(Chains):
 
         :return: A :class:`~.covmat.CovMat` object holding the covariance
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         nparamNonDerived = self.paramNames.numNonDerived()
         return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
                              paramNames=self.paramNames.list()[:nparamNonDerived])
@@ -633,6 +637,8 @@ class MCSamples(Chains):
         :param n_best_only: return just the short summary constraint for the tightest n_best_only constraints
         :return: a string description of the output of the PCA
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         logging.info('Doing PCA for %s parameters', len(params))
         if len(conditional_params):
             logging.info('conditional %u fixed parameters', len(conditional_params))
@@ -816,6 +822,8 @@ class MCSamples(Chains):
 
         :return: The summary text as a string.
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = 'using %s rows, %s parameters; mean weight %s, tot weight %s\n' % (
             self.numrows, self.paramNames.numParams(), self.mean_mult, self.norm)
         if self.indep_thin != 0:
@@ -845,6 +853,8 @@ class MCSamples(Chains):
         :param feedback: If set to True, Prints the output as well as returning it.
         :return: text giving the output of the tests
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         lines = ''
         nparam = self.n
 
@@ -2132,6 +2142,8 @@ class MCSamples(Chains):
                  result.names[i].ND_limit_top, result.names[i].ND_limit_bot, and best-fit sample value
                  in result.names[i].bestfit_sample
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         return self.likeStats or self._setLikeStats()
 
     def getTable(self, columns=1, include_bestfit=False, **kwargs):
@@ -2204,6 +2216,8 @@ class MCSamples(Chains):
         :param max_frac_twotail: optional override for self.max_frac_twotail
         :param meanlikes: include mean likelihoods
         """
+        if self.needs_update:
+            self.updateBaseStatistics()
         if self.done_1Dbins:
             return
 
@@ -2294,7 +2308,7 @@ class MCSamples(Chains):
         try_t = 1e5
         x, y = 0, 0
         cust2DPlots = []
-        correlationMatrix = self.correlationMatrix
+        correlationMatrix = self.getCorrelationMatrix()
         for _ in range(num_plots):
             try_b = -1e5
             for ix1 in range(nparam):
-- 
2.43.0


From b5e7d4bc2fd62b00804fa67d4a2e72f55109d904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:12 +0000
Subject: [PATCH 05/91] fix: getBounds, getLower and getUpper were stale or
 failed after setting ranges or adding a parameter

---
 python/getdist/mcsamples.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 7baf68f..2697e54 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2069,6 +2069,8 @@ class MCSamples(Chains):
 
         :return: a :class:`~.parampriors.ParamBounds` instance
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         bounds = ParamBounds()
         bounds.names = self.paramNames.list()
         for par in self.paramNames.names:
@@ -2085,6 +2087,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The upper limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmax', None)
@@ -2097,6 +2101,8 @@ class MCSamples(Chains):
         :param name: parameter name
         :return: The lower limit if name exists, None otherwise.
         """
+        if self.needs_update and self.samples is not None:
+            self.updateBaseStatistics()
         par = self.paramNames.parWithName(name)
         if par:
             return getattr(par, 'limmin', None)
-- 
2.43.0


From f4f2cc33dfa872f328733218bcac168723d151ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:36 +0000
Subject: [PATCH 06/91] fix: writeThinData wrote the wrong rows, and no line
 ends

---
 python/getdist/mcsamples.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 2697e54..293ccc4 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -556,21 +556,18 @@ class MCSamples(Chains):
             logging.info('Cooled thinned output with temp: %s', cool)
         MaxL = np.max(self.loglikes)
         with open(fname, 'w', encoding='utf-8') as f:
-            i = 0
             for thin in thin_ix:
                 if cool != 1:
                     newL = self.loglikes[thin] * cool
                     f.write("%16.7E" % (
                         np.exp(-(newL - self.loglikes[thin]) - MaxL * (1 - cool))))
                     f.write("%16.7E" % newL)
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
                 else:
-                    f.write("%f" % 1.)
-                    f.write("%f" % (self.loglikes[thin]))
-                    for j in range(nparams):
-                        f.write("%16.7E" % (self.samples[i][j]))
-                i += 1
+                    f.write("%16.7E" % 1.)
+                    f.write("%16.7E" % (self.loglikes[thin]))
+                for j in range(nparams):
+                    f.write("%16.7E" % (self.samples[thin][j]))
+                f.write("\n")
         print('Wrote ', len(thin_ix), ' thinned samples')
 
     def getCovMat(self):
-- 
2.43.0


From e983e23dc755f038e806aefe6f887ee5519a315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:11 +0000
Subject: [PATCH 07/91] fix: reweighting and cooling changed the caller's
 arrays and samples sharing them

---
 python/getdist/chains.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index ffed747..cedb058 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -961,9 +961,8 @@ class WeightedSamples:
         """
         scale = np.min(logLikes)
         if self.loglikes is not None:
-            self.loglikes += logLikes
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(logLikes - scale))
+            self.loglikes = self.loglikes + logLikes
+        self.weights = self.weights * np.exp(-(logLikes - scale))
         self._weightsChanged()
 
     def cool(self, cool):
@@ -974,8 +973,7 @@ class WeightedSamples:
         """
         MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = np.asarray(self.weights, dtype=np.float64)
-        self.weights *= np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        self.weights = self.weights * np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From c7e652f64672bdbabc82af504217317c6d80fdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 08/91] fix: cooling by a factor above one overflowed the
 weights for large likelihood ranges

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index cedb058..9136b4f 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -971,9 +971,9 @@ class WeightedSamples:
 
         :param cool: cool factor
         """
-        MaxL = np.max(self.loglikes)
         newL = self.loglikes * cool
-        self.weights = self.weights * np.exp(-(newL - self.loglikes) - (MaxL * (1 - cool)))
+        scale = np.min(newL - self.loglikes)
+        self.weights = self.weights * np.exp(-(newL - self.loglikes - scale))
         self.loglikes = newL
         self._weightsChanged()
 
-- 
2.43.0


From acd2703236237345ac7b46d163d8b669e3771920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:29 +0000
Subject: [PATCH 09/91] fix: ignore_rows given as a float failed, and an
 integer one dropped parameters of a list of vectors

---
 python/getdist/chains.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 9136b4f..8afc63e 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -229,15 +229,19 @@ class WeightedSamples:
         self.precision = '%.8e'
         self.min_weight_ratio = min_weight_ratio
         if filename:
-            cols = loadNumpyTxt(filename, skiprows=ignore_rows)
+            cols = loadNumpyTxt(filename, skiprows=int(ignore_rows))
             if not len(cols):
                 raise WeightedSampleError('Empty chain: %s' % filename)
+            if ignore_rows < 1:
+                cols = cols[int(round(len(cols) * ignore_rows)):]
             self.setColData(cols, are_chains=files_are_chains)
             self.name_tag = name_tag or os.path.basename(filename)
         else:
-            self.setSamples(slice_or_none(samples, ignore_rows),
-                            slice_or_none(weights, ignore_rows),
-                            slice_or_none(loglikes, ignore_rows))
+            if samples is not None and ignore_rows:
+                self.setSamples(samples, weights, loglikes, min_weight_ratio=-1)
+                self.removeBurn(ignore_rows)
+            else:
+                self.setSamples(samples, weights, loglikes)
             self.name_tag = name_tag
             if samples is not None and int(ignore_rows):
                 if print_load_details:
@@ -1372,9 +1376,11 @@ class Chains(WeightedSamples):
             dim = array_dimension(files_or_samples)
             if dim in [1, 2]:
                 self.chains = None
-                self.setSamples(slice_or_none(files_or_samples, ignore_lines),
-                                slice_or_none(weights, ignore_lines),
-                                slice_or_none(loglikes, ignore_lines), self.min_weight_ratio)
+                if ignore_lines:
+                    self.setSamples(files_or_samples, weights, loglikes, min_weight_ratio=-1)
+                    self.removeBurn(ignore_lines)
+                else:
+                    self.setSamples(files_or_samples, weights, loglikes, self.min_weight_ratio)
                 if self.paramNames is None:
                     self.paramNames = ParamNames(default=self.n)
                 nchains = 1
-- 
2.43.0


From c670b9b6c570ddd652938d85737e022417d9f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:29 +0000
Subject: [PATCH 10/91] fix: an empty chain file made loading fail instead of
 being ignored

---
 python/getdist/chains.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 8afc63e..ae45fb5 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -127,14 +127,17 @@ def loadNumpyTxt(fname, skiprows=None):
     """
     try:
         if pandas:
-            return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
-                                   skiprows=skiprows, comment='#').values
+            try:
+                return pandas.read_csv(fname, delim_whitespace=True, header=None, dtype=np.float64,
+                                       skiprows=skiprows, comment='#').values
+            except pandas.errors.EmptyDataError:
+                return np.empty((0, 0))
         else:
             global _pandas_suggestion
             if _pandas_suggestion:
                 _pandas_suggestion = False
                 logging.warning('Install pandas for faster reading from text files')
-            return np.atleast_2d(np.loadtxt(fname, skiprows=skiprows or 0))
+            return np.loadtxt(fname, skiprows=skiprows or 0, ndmin=2)
     except ValueError:
         print('Error reading %s' % fname)
         raise
-- 
2.43.0


From fad864f73edd44520394bf4e7b8d3fd01994af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:29 +0000
Subject: [PATCH 11/91] fix: getSeparateChains failed without loglikes, and
 dropped rows with small weights

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index ae45fb5..d519cb4 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1475,7 +1475,8 @@ class Chains(WeightedSamples):
         else:
             for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
                 chainlist.append(WeightedSamples(samples=self.samples[off1:off2], weights=self.weights[off1:off2],
-                                                 loglikes=self.loglikes[off1:off2]))
+                                                 loglikes=slice_or_none(self.loglikes, off1, off2),
+                                                 min_weight_ratio=-1))
         return chainlist
 
     def removeBurnFraction(self, ignore_frac):
-- 
2.43.0


From e84cffbbad92098f85eb8f35d1169309574d538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:29 +0000
Subject: [PATCH 12/91] fix: separating combined chains gave the wrong rows
 after thinning, burn removal or filtering by index

---
 python/getdist/chains.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d519cb4..9f446b0 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1145,14 +1145,39 @@ class Chains(WeightedSamples):
         if self.chains is None:
             if self.chain_offsets is not None:
                 # must update chain_offsets to be able to correctly split back into separate filtered chains if needed
-                lens = [0]
-                for off1, off2 in zip(self.chain_offsets[:-1], self.chain_offsets[1:]):
-                    lens.append(np.count_nonzero(where[off1:off2]))
-                self.chain_offsets = np.cumsum(np.array(lens))
+                self._updateChainOffsets(np.arange(self.numrows)[where])
             super().filter(where)
         else:
             raise ValueError('chains are separated, makeSingle first or call filter on individual chains')
 
+    def _updateChainOffsets(self, indices):
+        # offsets of the separate chains once only the rows with the given indices are kept
+        if np.any(np.diff(indices) < 0):
+            self.chain_offsets = None
+        else:
+            self.chain_offsets = np.searchsorted(indices, self.chain_offsets)
+
+    def thin(self, factor: int):
+        """
+        Thin the samples by the given factor, giving set of samples with unit weight
+
+        :param factor: The factor to thin by
+        """
+        if self.chain_offsets is not None and self.chains is None:
+            self._updateChainOffsets(self.thin_indices(factor))
+        super().thin(factor)
+
+    def removeBurn(self, remove=0.3):
+        """
+        removes burn in from the start of the samples
+
+        :param remove: fraction of samples to remove, or if int >1, the number of sample rows to remove
+        """
+        if self.chain_offsets is not None and self.chains is None:
+            ix = int(remove) if remove >= 1 else int(round(self.numrows * remove))
+            self.chain_offsets = np.maximum(self.chain_offsets - ix, 0)
+        super().removeBurn(remove)
+
     def weighted_thin(self, factor: int):
         """
         Thin the samples by the given factor, giving (in general) non-unit integer weights.
@@ -1339,6 +1364,7 @@ class Chains(WeightedSamples):
         :return: True if loaded successfully, False if none loaded
         """
         self.chains = []
+        self.chain_offsets = None
         self.samples = None
         self.weights = None
         self.loglikes = None
-- 
2.43.0


From d0dc8f76241bd7d1cec8eade01abb6f3fc57ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:29 +0000
Subject: [PATCH 13/91] fix: a parameter varying in other chains but not in the
 first was deleted as fixed

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 9f446b0..908014c 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1528,8 +1528,8 @@ class Chains(WeightedSamples):
             fixed, values = super().deleteFixedParams()
             self.chains = None
         else:
-            fixed, values = self.chains[0].deleteFixedParams()
-            for chain in self.chains[1:]:
+            fixed, values = WeightedSamples(samples=np.vstack([chain.samples for chain in self.chains])).deleteFixedParams()
+            for chain in self.chains:
                 chain.changeSamples(np.delete(chain.samples, fixed, 1))
         if hasattr(self, 'ranges'):
             for ix, value in zip(fixed, values):
-- 
2.43.0


From fa5178f492f4cf90012e18216a143c02bdeb1aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:41:29 +0000
Subject: [PATCH 14/91] fix: finding chain files failed for a root without a
 directory

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 908014c..28c84b3 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -98,7 +98,7 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
         basename = os.path.basename(root)
         reg_exp = re.compile(re.escape(basename) + '(' + re.escape(separator) + '(?P<num>[0-9]+))?' + re.escape(ext))
     files = []
-    for f in os.listdir(folder):
+    for f in os.listdir(folder or os.curdir):
         match = reg_exp.fullmatch(f)
         if match:
             index = int(match.group("num") or 0)
-- 
2.43.0


From 941179daceb124d839dde8e9e4c2b96c25871e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:20 +0000
Subject: [PATCH 15/91] fix: combining two sample sets failed for parameter
 names with dots

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 293ccc4..4e91a6b 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2408,9 +2408,7 @@ class MCSamples(Chains):
         else:
             fac = np.sum(self.weights) / np.sum(samps2.weights)
         weights = np.concatenate([self.weights * sample_weights[0], samps2.weights * sample_weights[1] * fac])
-        p1 = self.getParams()
-        p2 = samps2.getParams()
-        samples = np.array([np.concatenate([getattr(p1, name), getattr(p2, name)]) for name in params.list()]).T
+        samples = np.array([np.concatenate([self[name], samps2[name]]) for name in params.list()]).T
         samps = MCSamples(samples=samples, weights=weights, loglikes=loglikes, paramNamesFile=params, ignore_rows=0,
                           ranges=self.ranges, settings=copy.deepcopy(self.ini.params))
         return samps
-- 
2.43.0


From 712b0af5aaa1c303b310a49ed511e7138a1febef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:50 +0000
Subject: [PATCH 16/91] fix: thinning combined chains failed when filtering had
 removed all of one chain

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 28c84b3..d6cdd2d 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1190,7 +1190,8 @@ class Chains(WeightedSamples):
         has_chains = self.chains
         chains = self.getSeparateChains()
         for chain in chains:
-            chain.weighted_thin(factor)
+            if chain.numrows:
+                chain.weighted_thin(factor)
         self.chains = chains
         if not has_chains:
             self.makeSingle()
-- 
2.43.0


From 2626c76be7b1f9783bc7353e03ff8dc859811318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:22 +0000
Subject: [PATCH 17/91] fix: contour levels falling on an edge bin used half
 its density

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 3dd213a..cec6c7c 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -43,8 +43,8 @@ def getContourLevels(inbins, contours=defaultContours, missing_norm=0, half_edge
     targets = (1 - np.array(contours)) * norm - missing_norm
     bins = abins.reshape(-1)
     indexes = inbins.reshape(-1).argsort()
-    sortgrid = bins[indexes]
-    cumsum = np.cumsum(sortgrid)
+    sortgrid = inbins.reshape(-1)[indexes]
+    cumsum = np.cumsum(bins[indexes])
     ixs = np.searchsorted(cumsum, targets)
     for i, ix in enumerate(ixs):
         if ix == 0:
-- 
2.43.0


From 362dc6aa4e2808d60a972edf132aa5291be5ccd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:22 +0000
Subject: [PATCH 18/91] fix: getLimits returned only the first of a list of
 limits

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index cec6c7c..31ce584 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -241,7 +241,7 @@ class Density1D(GridDensity):
                 i = g.bign - np.argmax(g.grid[::-1] > trial) - 1
                 d = (g.grid[i] - trial) / (g.grid[i] - g.grid[i + 1])
                 mx = self.x[0] + (i + d) * finespace
-            if parr is not p:
+            if np.ndim(p) == 0:
                 return mn, mx, lim_bot, lim_top
             results.append((mn, mx, lim_bot, lim_top))
         return results
-- 
2.43.0


From 4d02b9be32323c5eb3ab56e1d3511f5c682d9ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:22 +0000
Subject: [PATCH 19/91] fix: Density2D.Prob did not return the density

---
 python/getdist/densities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 31ce584..088fd4f 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -287,7 +287,7 @@ class Density2D(GridDensity):
         :param y: y value or array
         :param grid: whether to make a grid, see :class:`~scipy:scipy.interpolate.RectBivariateSpline`. Default False.
         """
-        self.__call__(x, y, grid=grid)
+        return self.__call__(x, y, grid=grid)
 
     def __call__(self, *args, **kwargs):
         if self.spl is None:
-- 
2.43.0


From 9ff7149b6657c38ca93654edbb70d8ff6ca92ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:22 +0000
Subject: [PATCH 20/91] fix: the integral of an N-dimensional density left out
 the grid spacing

---
 python/getdist/densities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/densities.py b/python/getdist/densities.py
index 088fd4f..d012955 100644
--- a/python/getdist/densities.py
+++ b/python/getdist/densities.py
@@ -330,7 +330,7 @@ class DensityND(GridDensity):
 
     def integrate(self, P):
 
-        ndim = len(P)
+        ndim = P.ndim
 
         multinorm = np.zeros(ndim + 1)
 
@@ -357,7 +357,7 @@ class DensityND(GridDensity):
 
             norm += multinorm[i] / 2 ** i
 
-        return norm
+        return norm * self.spacing
 
     def norm_integral(self):
         return self.integrate(self.P)
-- 
2.43.0


From f76fa610b457bd0615aae4e0abd2c80731aecaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:01 +0000
Subject: [PATCH 21/91] fix: samples with likelihoods could not be analysed
 with a single contour level

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 4e91a6b..3ede0ed 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2033,7 +2033,8 @@ class MCSamples(Chains):
         indexes = self.loglikes.argsort()
         cumsum = np.cumsum(self.weights[indexes])
         # at least one sample, when the best sample alone has more than the contour's weight
-        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * self.contours[0:2]))
+        contours = np.array([self.contours[0], self.contours[min(1, len(self.contours) - 1)]])
+        m.ND_cont1, m.ND_cont2 = np.maximum(1, np.searchsorted(cumsum, self.norm * contours))
         for j, par in enumerate(self.paramNames.names):
             region1 = self.samples[indexes[:m.ND_cont1], j]
             region2 = self.samples[indexes[:m.ND_cont2], j]
-- 
2.43.0


From 35e15b2d13c77ba450b434dde777ae37b096f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:01 +0000
Subject: [PATCH 22/91] fix: convolveGaussianDCT failed without a cache

---
 python/getdist/convolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 78c9a0d..6c8475e 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -165,7 +165,8 @@ def convolveGaussianDCT(x, sigma, pad_sigma=4, mode='same', cache=None):
     gauss = cache.get((s, hnorm)) if cache is not None else None
     if gauss is None:
         gauss = np.exp(-(np.arange(0, s) * (np.pi * hnorm)) ** 2 / 2.)
-        cache[(s, hnorm)] = gauss
+        if cache is not None:
+            cache[(s, hnorm)] = gauss
     res = fftpack.idct(fftpack.dct(padded_x, overwrite_x=fill > 0) * gauss, overwrite_x=fill > 0) / (2 * s)
     if fill == 0:
         return res
-- 
2.43.0


From 13e707f79e34fe468d202a00f72ebe567e25756d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:01 +0000
Subject: [PATCH 23/91] fix: convolveGaussianTrunc returned nothing for widths
 well below one pixel

---
 python/getdist/convolve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/convolve.py b/python/getdist/convolve.py
index 6c8475e..47bf2ef 100644
--- a/python/getdist/convolve.py
+++ b/python/getdist/convolve.py
@@ -221,11 +221,11 @@ def convolveGaussianTrunc(x, sigma, sigma_range=4, mode='same', cache=None):
             cache[(fill, actual_size, sigma)] = gauss
     res = np.fft.irfft(np.fft.rfft(x, s) * gauss, s)[:actual_size]
     if mode == 'same':
-        return res[fill:-fill]
+        return res[fill:fill + x.size]
     elif mode == 'full':
         return res
     elif mode == 'valid':
-        return res[2 * fill:-2 * fill]
+        return res[2 * fill:x.size]
 
 
 def dct2d(a):
-- 
2.43.0


From 28122b0fb607822ec5703f51b64d39a0e3e00f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 24/91] fix: getAutocorrelation default maximum lag was the
 number of parameters, not of rows

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index d6cdd2d..892954a 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -443,7 +443,7 @@ class WeightedSamples:
         :return: zero-based array giving auto-correlations
         """
         if maxOff is None:
-            maxOff = self.n - 1
+            maxOff = self.numrows - 1
         d = self.mean_diff(paramVec) * self.weights
         corr = autoConvolve(d, n=maxOff + 1, normalize=True)
         if normalized:
-- 
2.43.0


From 65c454470ed38d1930c6bcda47863ea305c8bce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:14 +0000
Subject: [PATCH 25/91] fix: correlation length ignored all correlations when
 they never fell below the threshold

---
 python/getdist/chains.py    | 3 ++-
 python/getdist/mcsamples.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 892954a..0704047 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -468,7 +468,8 @@ class WeightedSamples:
         """
         if corr is None:
             corr = self.getAutocorrelation(j, self.numrows // 10, weight_units=weight_units)
-        ix = np.argmin(corr > min_corr * corr[0])
+        above = corr > min_corr * corr[0]
+        ix = corr.size if np.all(above) else np.argmin(above)
         N = corr[0] + 2 * np.sum(corr[1:ix])
         return N
 
diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 3ede0ed..62e2fe8 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -877,7 +877,8 @@ class MCSamples(Chains):
                 for chain in chainlist:
                     corr += chain.getAutocorrelation(j, maxoff, normalized=False) * chain.norm
                 corr /= self.norm * self.vars[j]
-                ix = np.argmin(corr > 0.05 * corr[0])
+                above = corr > 0.05 * corr[0]
+                ix = corr.size if np.all(above) else np.argmin(above)
                 N = corr[0] + 2 * np.sum(corr[1:ix])
                 maxN = max(N, maxN)
                 form = '%15.2E'
-- 
2.43.0


From b78e49dc7a7d4a39adf48db0314749b496991dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:48 +0000
Subject: [PATCH 26/91] fix: effective sample number of a short correlated
 chain raised IndexError

---
 python/getdist/chains.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 0704047..6434e47 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -525,7 +525,7 @@ class WeightedSamples:
             uncorr_term += np.dot(np.exp(-diff2 / 4) * self.weights[:-k], self.weights[k:])
         uncorr_term /= nav
 
-        corr = np.zeros(maxoff + 1)
+        corr = np.zeros(max(maxoff, 2) + 1)
         corr[0] = np.dot(self.weights, self.weights)
         n = float(self.numrows)
 
-- 
2.43.0


From 5c598f2af8ddc65535156c3ebacf2138c53541ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:50 +0000
Subject: [PATCH 27/91] fix: ParamInfo.nameEquals compared its argument with
 itself

---
 python/getdist/paramnames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index b25ba5e..7d19f25 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -90,9 +90,9 @@ class ParamInfo:
 
     def nameEquals(self, name):
         if isinstance(name, ParamInfo):
-            return name.name == name
+            return self.name == name.name
         else:
-            return name == name
+            return self.name == name
 
     def setFromString(self, line):
         items = line.split(None, 1)
-- 
2.43.0


From bd1ca10b5d81d067fcfe6af30b5ab5bf2d35439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:01:50 +0000
Subject: [PATCH 28/91] fix: parameter aliases given as a tuple raised
 TypeError

---
 python/getdist/paramnames.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/paramnames.py b/python/getdist/paramnames.py
index 7d19f25..08a5796 100644
--- a/python/getdist/paramnames.py
+++ b/python/getdist/paramnames.py
@@ -38,7 +38,7 @@ def mergeRenames(*dicts, **kwargs):
     keep_names_1st = kwargs.pop("keep_names_1st", False)
     if kwargs:
         raise ValueError("kwargs not recognized: %r" % kwargs)
-    sets = list(chain(*[[set([k] + (makeList(v or [])))
+    sets = list(chain(*[[set([k] + list(makeList(v or [])))
                          for k, v in dic.items()] for dic in dicts]))
     # If two sets have elements in common, join them.
     something_changed = True
@@ -236,8 +236,8 @@ class ParamList:
         if renames:
             given_names.update(makeList(renames.get(name, [])))
         for par in self.names:
-            known_names = set([par.name] + makeList(getattr(par, 'renames', [])) +
-                              (makeList(renames.get(par.name, [])) if renames else []))
+            known_names = set([par.name] + list(makeList(getattr(par, 'renames', []))) +
+                              (list(makeList(renames.get(par.name, []))) if renames else []))
             if known_names.intersection(given_names):
                 return par
         if error:
-- 
2.43.0


From 3131ca0394e569ad09bc346fd41bc1bd3126deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:06 +0000
Subject: [PATCH 29/91] fix: getParamSampleDict failed for samples without
 likelihoods

---
 python/getdist/chains.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 6434e47..67c72e5 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1299,7 +1299,8 @@ class Chains(WeightedSamples):
         """
         res = dict()
         res['weight'] = self.weights[ix]
-        res['loglike'] = self.loglikes[ix]
+        if self.loglikes is not None:
+            res['loglike'] = self.loglikes[ix]
         for i, name in enumerate(self.paramNames.names):
             if want_derived or not name.isDerived:
                 res[name.name] = self.samples[ix, i]
-- 
2.43.0


From 620ee4899ce0a7509ad7703e748666e2c75c07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:06 +0000
Subject: [PATCH 30/91] fix: getParamBestFitDict(best_sample=True) ignored
 want_derived and want_fixed

---
 python/getdist/mcsamples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 62e2fe8..7296f3a 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2365,7 +2365,7 @@ class MCSamples(Chains):
         if best_sample:
             if not max_posterior:
                 raise ValueError('best_fit_sample is only maximum posterior')
-            return self.getParamSampleDict(np.argmin(self.loglikes))
+            return self.getParamSampleDict(np.argmin(self.loglikes), want_derived=want_derived, want_fixed=want_fixed)
         else:
             res = self.getBestFit(max_posterior=max_posterior).getParamDict(include_derived=want_derived)
         if want_fixed:
-- 
2.43.0


From d3c3f9cece8680e9c8d7f7f839bd82ec5edecbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:06 +0000
Subject: [PATCH 31/91] fix: a rejected addDerived changed the range of the
 existing parameter

---
 python/getdist/mcsamples.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 7296f3a..05486c0 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2342,9 +2342,10 @@ class MCSamples(Chains):
         :return: The added parameter's :class:`~.paramnames.ParamInfo` object
         """
 
+        info = super().addDerived(paramVec, name, label=label, comment=comment)
         if range is not None:
             self.ranges.setRange(name, range)
-        return super().addDerived(paramVec, name, label=label, comment=comment)
+        return info
 
     def getParamBestFitDict(self, best_sample=False, want_derived=True, want_fixed=True, max_posterior=True):
         """
-- 
2.43.0


From c4771f66a9d3212f31b3c91a5c537236ea43e2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:55 +0000
Subject: [PATCH 32/91] fix: IniFile.original_filename stays the file that was
 read, not the last one it includes

---
 python/getdist/inifile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 7d38a7e..3e48589 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -118,6 +118,7 @@ class IniFile:
                     else:
                         self.readFile(os.path.join(os.path.dirname(filename), ffile), if_not_defined=True)
 
+            self.original_filename = filename
             return self.params
         except:
             print('Error in ' + filename)
-- 
2.43.0


From a48a0a5098458d6be94516dcc97e60e9798ab7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:55 +0000
Subject: [PATCH 33/91] fix: IniFile comments of an overridden default are not
 given to the next key

---
 python/getdist/inifile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 3e48589..43fa0d1 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -91,6 +91,7 @@ class IniFile:
                             key = s[0:eq].strip()
                             if key in self.params:
                                 if if_not_defined:
+                                    comments = []
                                     continue
                                 raise IniError('Error: duplicate key: ' + key + ' in ' + filename)
                             value = s[eq + 1:].strip()
-- 
2.43.0


From bc7bda39afb5a1a163ac9499c0d47133246afa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:55 +0000
Subject: [PATCH 34/91] fix: IniFile keeps $ characters that do not start a
 placeholder

---
 python/getdist/inifile.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 43fa0d1..9c66c85 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -51,16 +51,18 @@ class IniFile:
         while index < pathlen:
             c = s[index]
             if c == '$':
-                if s[index + 1] == '$':
+                if s[index + 1:index + 2] == '$':
                     res = res + c
                     index += 1
-                elif s[index + 1] == '(':
+                elif s[index + 1:index + 2] == '(':
                     s = s[index + 2:]
                     pathlen = len(s)
                     index = s.index(')')
                     var = s[:index]
                     if var in os.environ:
                         res += os.environ[var]
+                else:
+                    res = res + c
             else:
                 res = res + c
             index += 1
-- 
2.43.0


From 31169225663d999e56d3407ab236dd8d67757e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:55 +0000
Subject: [PATCH 35/91] fix: IniFile.bool_list parses T and F values

---
 python/getdist/inifile.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 9c66c85..47ddaf7 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -243,19 +243,21 @@ class IniFile:
         :param default: default value if not set
         """
         if self.isSet(name):
-            s = self.params[name]
-            if isinstance(s, bool):
-                return s
-            if s[0] == 'T':
-                return True
-            elif s[0] == 'F':
-                return False
-            raise IniError('parameter does not have valid T(rue) or F(alse) boolean value: ' + name)
+            return self._parse_bool(name, self.params[name])
         elif default is not None:
             return default
         else:
             self._undefined(name)
 
+    def _parse_bool(self, name, s):
+        if isinstance(s, bool):
+            return s
+        if s[0] == 'T':
+            return True
+        elif s[0] == 'F':
+            return False
+        raise IniError('parameter does not have valid T(rue) or F(alse) boolean value: ' + name)
+
     def bool_list(self, name, default=None):
         """
         Get list of boolean values, e.g. from name = T F T
@@ -342,6 +344,9 @@ class IniFile:
         :param default: default value
         :param tp: type for each list member
         """
+        if tp == bool:
+            def tp(x):
+                return self._parse_bool(name, x)
         if name in self.params and isinstance(self.params[name], (list, tuple)):
             if tp is None:
                 return self.params[name]
-- 
2.43.0


From 92f86d8a2c515c32b4d02551891b7ce62dda3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:55 +0000
Subject: [PATCH 36/91] fix: IniFile saves list values in the form they are
 read back

---
 python/getdist/inifile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/inifile.py b/python/getdist/inifile.py
index 47ddaf7..3f91f9d 100644
--- a/python/getdist/inifile.py
+++ b/python/getdist/inifile.py
@@ -151,6 +151,8 @@ class IniFile:
                 return value
             if type(value) == bool:
                 return str(value)[0]
+            if isinstance(value, (list, tuple, np.ndarray)):
+                return ' '.join(asIniText(x) for x in value)
             return str(value)
 
         parameterLines = []
-- 
2.43.0


From fe0c593bc10cbfe28e781ab9da899be6173683a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 37/91] fix: a covariance of one parameter loads as a matrix

---
 python/getdist/covmat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index d4a4e99..926a3cd 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -36,7 +36,7 @@ class CovMat:
             else:
                 raise Exception('.covmat must now have parameter names header')
             # noinspection PyTypeChecker
-            self.matrix = np.loadtxt(f)
+            self.matrix = np.loadtxt(f, ndmin=2)
 
     def saveToFile(self, filename):
         """
-- 
2.43.0


From 085e917d5013473cfddc6060dd8a7e2925c06cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 38/91] fix: merged covariance knows its size

---
 python/getdist/covmat.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/covmat.py b/python/getdist/covmat.py
index 926a3cd..7edb536 100644
--- a/python/getdist/covmat.py
+++ b/python/getdist/covmat.py
@@ -80,6 +80,7 @@ class CovMat:
         map2 = dict(list(zip(params2, list(range(0, l2)))))
         covmap = dict(list(zip(list(range(0, length)), C.paramNames)))
 
+        C.size = length
         C.matrix = np.zeros((length, length))
         for i in range(0, length):
             for j in range(0, length):
-- 
2.43.0


From e691aa957bfe27a61cab6f1506440ab43035f5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:27:48 +0000
Subject: [PATCH 39/91] fix: getCovMat selects the non-derived parameters
 wherever they are

---
 python/getdist/mcsamples.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 05486c0..6dc16e2 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -579,9 +579,9 @@ class MCSamples(Chains):
         """
         if self.needs_update:
             self.updateBaseStatistics()
-        nparamNonDerived = self.paramNames.numNonDerived()
-        return covmat.CovMat(matrix=self.fullcov[:nparamNonDerived, :nparamNonDerived],
-                             paramNames=self.paramNames.list()[:nparamNonDerived])
+        names = self.paramNames.getRunningNames()
+        ix = [self.index[name] for name in names]
+        return covmat.CovMat(matrix=self.fullcov[np.ix_(ix, ix)], paramNames=names)
 
     def writeCovMatrix(self, filename=None):
         """
-- 
2.43.0


From 67957276dcd143235142b770f921d694ee59de8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:28 +0000
Subject: [PATCH 40/91] fix: the number formatter given to ResultTable is used

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c777e18..627e860 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -296,7 +296,7 @@ class ResultTable:
         if paramList is not None:
             self.tableParamNames = self.tableParamNames.filteredCopy(paramList)
         if numFormatter is not None:
-            self.format.numFormatter = numFormatter
+            self.format.numberFormatter = numFormatter
 
         self.results = results
         self.boldBaseParameters = True
-- 
2.43.0


From 694f25536b178a950f518cfa3534377746183419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:28 +0000
Subject: [PATCH 41/91] fix: parameter shifts in tables print \sigma, not a
 line break

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 627e860..4462fe5 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -815,7 +815,7 @@ class MargeStats(ParamResults):
                             res += ', %+.1f \\sigma_i' % (delta / indep_sigma)
                         res += ')'
                     else:
-                        res += r'\quad(%+.1f \\sigma)' % (delta / refVal.err)
+                        res += r'\quad(%+.1f \sigma)' % (delta / refVal.err)
             if self.hasBestFit:  # add best fit too
                 rangew = (lim.upper - lim.lower) / 10
                 bestfit, _, _, exponent = formatter.numberFormatter.namesigFigs(param.best_fit, rangew, -rangew,
-- 
2.43.0


From 60ecf2082532fc7c88f0b3b86b3518d26d1b2537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:28 +0000
Subject: [PATCH 42/91] fix: result tables accept best fits and single results
 as documented

---
 python/getdist/types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 4462fe5..d963593 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -289,6 +289,8 @@ class ResultTable:
         else:
             self.format = formatter
         self.ncol = ncol
+        if isinstance(results, ParamResults):
+            results = [results]
         if tableParamNames is None:
             self.tableParamNames = results[0]
         else:
@@ -497,7 +499,7 @@ class BestFit(ParamResults):
         if setParamNameFile is not None:
             self.setLabelsFromParamNames(setParamNameFile)
 
-    def getColumnLabels(self, **kwargs):
+    def getColumnLabels(self, *args, **kwargs):
         return ['Best fit']
 
     def loadFromFile(self, filename, want_fixed=False):
@@ -565,7 +567,7 @@ class BestFit(ParamResults):
                 return val.chisq
         return None
 
-    def texValues(self, formatter, p, **kwargs):
+    def texValues(self, formatter, p, *args, **kwargs):
         param = self.parWithName(p.name)
         if param is not None:
             return [formatter.numberFormatter.formatNumber(param.best_fit)]
-- 
2.43.0


From e2e1903521cbfcc91587844739204c8dae525763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:28 +0000
Subject: [PATCH 43/91] fix: marginalized limits of a parameter without label
 read back

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index d963593..61bc621 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -692,7 +692,7 @@ class MargeStats(ParamResults):
                 param.name = param.name[:-1]
             param.mean = float(items[1])
             param.err = float(items[2])
-            param.label = items[-1]
+            param.label = items[-1] if len(items) > len(self.limits) * 3 + 3 else ''
             param.limits = []
             for i in range(len(self.limits)):
                 param.limits.append(ParamLimit([float(s) for s in items[3 + i * 3:5 + i * 3]], items[5 + i * 3]))
-- 
2.43.0


From 219dec083543dc742ce299d31776cb368673e03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:28 +0000
Subject: [PATCH 44/91] fix: a parameter missing from a result keeps the table
 columns aligned

---
 python/getdist/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index 61bc621..c61b71f 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -379,7 +379,8 @@ class ResultTable:
             txt += self.format.textAsColumn(values[0], values[0] != self.format.noConstraint)
             return txt
         else:
-            return self.format.textAsColumn('') * len(result.getColumnLabels(self.limit))
+            return self.format.colSeparator.join(
+                [self.format.textAsColumn('')] * len(result.getColumnLabels(self.limit)))
 
     def paramLabelColumn(self, param):
         return self.format.textAsColumn(param.getLabel(), True, separator=True, bold=not param.isDerived)
-- 
2.43.0


From 027e32df93b9bb5bc48b9fd9b4857172b4df6a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:47 +0000
Subject: [PATCH 45/91] fix: best-fit likelihood terms without a kind keep
 their name and tag

---
 python/getdist/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/types.py b/python/getdist/types.py
index c61b71f..68e77c3 100644
--- a/python/getdist/types.py
+++ b/python/getdist/types.py
@@ -535,7 +535,7 @@ class BestFit(ParamResults):
                             if len(name) > 1:
                                 (kind, name) = name
                             else:
-                                kind = ''
+                                kind, name = '', name[0]
                             chi2 = LikelihoodChi2()
                             if '=' in name:
                                 chi2.tag, chi2.name = [s.strip() for s in name.split('=')]
-- 
2.43.0


From 8fe089af30e3fe7160306bc6e3a35e9d28619941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:09 +0000
Subject: [PATCH 46/91] fix: jobGroup keeps its settings when datasets are
 given

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index d36129f..b312af7 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -181,10 +181,10 @@ class jobGroup(object):
             params = [[]]
         if datasets is None:
             datasets = []
-            self.params = params
-            self.groupName = name
-            self.importanceRuns = importanceRuns
-            self.datasets = datasets
+        self.params = params
+        self.groupName = name
+        self.importanceRuns = importanceRuns
+        self.datasets = datasets
         self.extra_options = {}
 
 
-- 
2.43.0


From d9d6b52b44774e3b1064b2f9720f525f43807f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:09 +0000
Subject: [PATCH 47/91] fix: jobItem.chainNames numbers chains from 1

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index b312af7..8fb2f76 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -336,7 +336,7 @@ class jobItem(propertiesItem):
 
     def chainNames(self, num_chains=None):
         if num_chains:
-            return [self.chainName(i) for i in range(num_chains)]
+            return [self.chainName(i + 1) for i in range(num_chains)]
         else:
             i = 1
             chains = []
-- 
2.43.0


From 3757d5d1508f956b9f4b217b0720aa1572b3cd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:09 +0000
Subject: [PATCH 48/91] fix: importance sampled jobs keep the base of their
 parent

---
 python/paramgrid/batchjob.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index 8fb2f76..e12d616 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -258,7 +258,7 @@ class jobItem(propertiesItem):
                 print('importance job duplicating parent data set: %s with %s' % (self.name, impRun.names))
                 continue
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
-            job = jobItem(self.batchPath, self.param_set, data, minimize=impRun.want_minimize)
+            job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
             job.importanceSettings = impRun.inis
             if not '_post_' in self.name:
-- 
2.43.0


From 83eb0ca5d50319912b88af5b62c631bf5abb682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 49/91] fix: dataSet does not change or share the lists it is
 made from

---
 python/paramgrid/batchjob.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob.py b/python/paramgrid/batchjob.py
index e12d616..461fc85 100644
--- a/python/paramgrid/batchjob.py
+++ b/python/paramgrid/batchjob.py
@@ -85,15 +85,14 @@ class propertiesItem(object):
 
 class dataSet(object):
     def __init__(self, names, params=None, covmat=None, dist_settings=None):
-        if not dist_settings:
-            dist_settings = {}
+        dist_settings = dict(dist_settings or {})
         if isinstance(names, six.string_types): names = [names]
         if params is None:
             params = [(name + '.ini') for name in names]
         else:
             params = self.standardizeParams(params)
         if covmat is not None: self.covmat = covmat
-        self.names = names
+        self.names = list(names)
         self.params = params  # can be an array of items, either ini file name or dictionaries of parameters
         self.tag = "_".join(self.names)
         self.dist_settings = dist_settings
@@ -133,6 +132,7 @@ class dataSet(object):
 
     def standardizeParams(self, params):
         if isinstance(params, dict) or isinstance(params, six.string_types): params = [params]
+        params = list(params)
         for i in range(len(params)):
             if isinstance(params[i], six.string_types) and not '.ini' in params[i]: params[i] += '.ini'
         return params
@@ -260,7 +260,7 @@ class jobItem(propertiesItem):
             data = self.data_set.extendForImportance(impRun.names, impRun.inis)
             job = jobItem(self.batchPath, self.param_set, data, base=self.base, minimize=impRun.want_minimize)
             job.importanceTag = "_".join(impRun.names)
-            job.importanceSettings = impRun.inis
+            job.importanceSettings = data.importanceParams
             if not '_post_' in self.name:
                 tag = '_post_' + job.importanceTag
             else:
-- 
2.43.0


From d68db6d2a98962b2c2ff7faa53f272edc23cfac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 50/91] fix: --skip_data and --skip_param also apply with
 --datatag and --paramtag

---
 python/paramgrid/batchjob_args.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 6e15be5..81b1394 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -116,19 +116,19 @@ class batchArgs(object):
 
     def dataMatches(self, jobItem):
         if self.args.musthave_data is not None and not jobItem.data_set.hasAll(self.args.musthave_data): return False
+        if self.args.skip_data is not None and jobItem.data_set.hasName(self.args.skip_data): return False
         if self.args.datatag is None:
-            if self.args.skip_data is not None and jobItem.data_set.hasName(self.args.skip_data): return False
             return self.args.data is None or jobItem.data_set.hasName(self.args.data)
         else:
             return jobItem.datatag in self.args.datatag
 
     def paramsMatch(self, jobItem):
+        if self.args.skip_param and jobItem.hasParam(self.args.skip_param): return False
         if self.args.paramtag is None:
             if self.args.param is None:
-                return not self.args.skip_param or not jobItem.hasParam(self.args.skip_param)
+                return True
             for pat in self.args.param:
-                if pat in jobItem.param_set: return not self.args.skip_param or not jobItem.hasParam(
-                    self.args.skip_param)
+                if pat in jobItem.param_set: return True
             return False
         else:
             return jobItem.paramtag in self.args.paramtag
-- 
2.43.0


From bbf5c802a69b68eaab764d8cef7e3d99b75feb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:10 +0000
Subject: [PATCH 51/91] fix: plotting scripts read the --param_list option

---
 python/paramgrid/batchjob_args.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/paramgrid/batchjob_args.py b/python/paramgrid/batchjob_args.py
index 81b1394..7e8b3a4 100644
--- a/python/paramgrid/batchjob_args.py
+++ b/python/paramgrid/batchjob_args.py
@@ -85,7 +85,8 @@ class batchArgs(object):
                 import getdist.plots as plots
                 from getdist import paramnames
 
-                if args.paramList is not None: args.paramList = paramnames.ParamNames(args.paramList)
+                args.paramList = None
+                if args.param_list is not None: args.paramList = paramnames.ParamNames(args.param_list)
                 g = plots.GetDistPlotter(chain_dir=self.batch.batchPath)
                 if args.size_inch is not None: g.settings.setWithSubplotSize(args.size_inch)
                 return self.batch, self.args, g
-- 
2.43.0


From 51a6cd4b10d20f4529f303c95d1943f45c35a312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 52/91] fix: default taken from the named environment variable

---
 python/paramgrid/jobqueue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 6d316be..59d22be 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -54,7 +54,7 @@ def getDefaulted(key_name, default=None, tp=str, template=None, ext_env=None, **
     if val is None and template is not None:
         val = extractValue(template, 'DEFAULT_' + key_name)
     if val is None: val = os.environ.get('COSMOMC_' + key_name, None)
-    if val is None and ext_env: val = os.environ.get('ext_env', None)
+    if val is None and ext_env: val = os.environ.get(ext_env, None)
     if val is None: val = default
     if val is None: return None
     return tp(val)
-- 
2.43.0


From 0c65b5e965337a436d824c7378a0d2f66f09d6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 53/91] fix: deleting or resubmitting a job leaves the names of
 other jobs in the index

---
 python/paramgrid/jobqueue.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index 59d22be..f96f325 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -140,21 +140,27 @@ class jobIndex(object):
         self.jobSequence = []
 
     def addJob(self, j):
+        self.delId(j.jobId)
         self.jobSettings[j.jobId] = j
+        self.jobSequence.append(j.jobId)
+        self._setNames(j)
+
+    def _setNames(self, j):
         self.jobNames[j.jobName] = j.jobId
         for name in j.names:
             self.rootNames[name] = j.jobId
-        self.jobSequence.append(j.jobId)
 
     def delId(self, jobId):
         if jobId is not None:
             j = self.jobSettings.get(jobId)
             if j is not None:
-                for rootname in j.names:
-                    del (self.rootNames[rootname])
                 del (self.jobSettings[jobId])
-                del (self.jobNames[j.jobName])
                 self.jobSequence = [s for s in self.jobSequence if s != jobId]
+                # the same names may have been submitted again under other ids
+                self.jobNames = dict()
+                self.rootNames = dict()
+                for s in self.jobSequence:
+                    self._setNames(self.jobSettings[s])
 
 
 def loadJobIndex(batchPath, must_exist=False):
-- 
2.43.0


From fdc41783dbf99b475d7bf530340a945b4ef0796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 54/91] fix: saving the job index replaces the old one in one
 step

---
 python/paramgrid/jobqueue.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index f96f325..bfcd84b 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -6,7 +6,6 @@ import numpy as np
 import re
 import pickle
 import time
-import shutil
 import multiprocessing
 
 from distutils import spawn
@@ -180,8 +179,7 @@ def saveJobIndex(obj, batchPath=None):
     with open(fname + '_tmp', 'wb') as output:
         pickle.dump(obj, output, pickle.HIGHEST_PROTOCOL)
     # try to prevent corruption from error mid-write
-    if os.path.exists(fname): os.remove(fname)
-    shutil.move(fname + '_tmp', fname)
+    os.replace(fname + '_tmp', fname)
 
 
 def addJobIndex(batchPath, j):
-- 
2.43.0


From cde5d841a5489b0b6beb9f620b76e8384fc2ca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:22 +0000
Subject: [PATCH 55/91] fix: output of queue commands is read as text

---
 python/paramgrid/jobqueue.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/python/paramgrid/jobqueue.py b/python/paramgrid/jobqueue.py
index bfcd84b..9f0af6b 100644
--- a/python/paramgrid/jobqueue.py
+++ b/python/paramgrid/jobqueue.py
@@ -71,7 +71,7 @@ class jobSettings(object):
             grid_engine = 'MOAB'
         else:
             try:
-                help_info = str(subprocess.check_output('qstat -help', shell=True)).strip()
+                help_info = subprocess.check_output('qstat -help', shell=True, universal_newlines=True).strip()
                 if 'OGS/GE' in help_info: grid_engine = 'OGS'  # Open Grid Scheduler, as on StarCluster
             except:
                 pass
@@ -311,7 +311,8 @@ def submitJob(jobName, paramFiles, sequential=False, msg=False, **kwargs):
         if len(paramFiles) > 1:
             open(scriptRoot + '.batch', 'w').write("\n".join(paramFiles))
         if not kwargs.get('no_sub', False):
-            res = str(subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True)).strip()
+            res = subprocess.check_output(replacePlaceholders(j.qsub, vals) + ' ' + scriptName, shell=True,
+                                          universal_newlines=True).strip()
             if not res:
                 print('No qsub output')
             else:
@@ -334,11 +335,11 @@ def queue_job_details(batchPath=None, running=True, queued=True, warnNotBatch=Tr
         print('No existing job index found')
         return []
     if spawn.find_executable("showq") is not None:
-        res = str(subprocess.check_output('showq -U $USER', shell=True)).strip()
+        res = subprocess.check_output('showq -U $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' Running '
     else:
         # e.g. Sun Grid Engine/OGS
-        res = str(subprocess.check_output('qstat -u $USER', shell=True)).strip()
+        res = subprocess.check_output('qstat -u $USER', shell=True, universal_newlines=True).strip()
         runningTxt = ' r '
     res = res.split("\n")
     names = []
-- 
2.43.0


From 828928fb71da01fc6ba76783fb293b856dc6e0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:32 +0000
Subject: [PATCH 56/91] fix: ClsArray works with numpy 1.24 and later

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index defb1dd..8d27eca 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -52,7 +52,7 @@ class ClsArray(object):
     def __init__(self, filename=None, camb_results=None, cols=None, field_names=['T', 'E', 'B', 'P'], rescale=None,
                  lmax=None):
         self.field_names = field_names
-        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=np.object)
+        self.cls_array = np.zeros((len(field_names), len(field_names)), dtype=object)
         self.cls_array[:, :] = None
         self.lmax = 0
         self.lmin = 0
@@ -83,7 +83,7 @@ class ClsArray(object):
             dat = np.loadtxt(filename)
             if isinstance(cols, six.string_types): cols = cols.split()
         Lix = cols.index('L')
-        L = dat[:, Lix].astype(np.int)
+        L = dat[:, Lix].astype(int)
         lmin = L[0]
         lmax = L[-1]
         if not add_only:
-- 
2.43.0


From 6a8a7836441d6c83c8264d11050cc3f2ed5f9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:33 +0000
Subject: [PATCH 57/91] fix: ClsArray rescales all of its fields

---
 python/CMBlikes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 8d27eca..25e9a7e 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -71,8 +71,8 @@ class ClsArray(object):
             self.cls_array[1, 0] = totcl[:, 3]
             self.cls_array[3, 3] = camb_results.get_lens_potential_cls(lmax)[:, 0]
         if rescale is not None:
-            for i in range(4):
-                for j in range(4):
+            for i in range(len(field_names)):
+                for j in range(len(field_names)):
                     if self.cls_array[i, j] is not None:
                         self.cls_array[i, j] *= rescale
 
-- 
2.43.0


From f9d6128275721125ff0db113c74c6b8138c8e633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:33 +0000
Subject: [PATCH 58/91] fix: required maps are not taken as used when maps_use
 is set

---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 25e9a7e..8e2d623 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -358,7 +358,7 @@ class DatasetLikelihood(object):
 
         # Bandpowers can depend on more fields than are actually used in likelihood
         # e.g. for correcting leakage or other linear corrections
-        self.require_map = self.use_map[:]
+        self.require_map = list(self.use_map)
         if self.has_map_names:
             if ini.hasKey('fields_required'):
                 raise Exception('CMBLikes: use maps_required not fields_required')
-- 
2.43.0


From 85e5efae2e037e8eca6a09a120f1d7bc738389e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:33 +0000
Subject: [PATCH 59/91] fix: noise removed from gaussian bandpowers is not
 added to the theory

---
 python/CMBlikes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 8e2d623..913b1f8 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -440,6 +440,7 @@ class DatasetLikelihood(object):
                 self.bandpowers += self.cl_noise
             elif self.like_approx == 'gaussian':
                 self.bandpowers -= self.cl_noise
+                self.cl_noise = None
 
         self.cl_lmax = np.zeros((self.tot_theory_fields, self.tot_theory_fields))
         for i in range(self.tot_theory_fields):
-- 
2.43.0


From 6b5fb219bfa1518b2ffed62860ab9151ce895f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:33 +0000
Subject: [PATCH 60/91] fix: spectra without a bin window have binned value
 zero

---
 python/CMBlikes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 913b1f8..f505c92 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -115,13 +115,14 @@ class ClsArray(object):
 
 
 class BinWindows(object):
-    def __init__(self, lmin, lmax, nbins):
+    def __init__(self, lmin, lmax, nbins, ncl):
         self.lmin = lmin
         self.lmax = lmax
         self.nbins = nbins
+        self.ncl = ncl
 
     def bin(self, TheoryCls, cls=None):
-        if cls is None: cls = np.zeros((self.nbins, max([x for x in self.cols_out if x >= 0]) + 1))
+        if cls is None: cls = np.zeros((self.nbins, self.ncl))
         for i, ((x, y), ix_out) in enumerate(zip(self.cols_in.T, self.cols_out)):
             cl = TheoryCls[x, y]
             if cl is not None and ix_out >= 0:
@@ -275,7 +276,7 @@ class DatasetLikelihood(object):
             return cl
 
     def readBinWindows(self, ini, file_stem):
-        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used)
+        bins = BinWindows(self.pcl_lmin, self.pcl_lmax, self.nbins_used, self.ncl)
         in_cl = ini.split(file_stem + '_in_order')
         out_cl = ini.split(file_stem + '_out_order', in_cl)
         bins.cols_in = self.UseString_to_Cl_i_j(in_cl, self.map_required_index)
-- 
2.43.0


From 7c3e97555c977b269ec9c6ac2dd51dbb9aa1c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:33 +0000
Subject: [PATCH 61/91] fix: bin window from a map that is not required is an
 error

---
 python/CMBlikes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index f505c92..12dd27b 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -284,6 +284,8 @@ class DatasetLikelihood(object):
         norder = bins.cols_in.shape[1]
         if norder != bins.cols_out.shape[0]:
             raise Exception('_in_order and _out_order must have same number of entries')
+        if np.any((bins.cols_in < 0).any(axis=0) & (bins.cols_out >= 0)):
+            raise Exception('%s_in_order uses a map that is not required' % file_stem)
 
         bins.binning_matrix = np.zeros((norder, self.nbins_used, self.pcl_lmax - self.pcl_lmin + 1))
         windows = ini.relativeFileName(file_stem + '_files')
-- 
2.43.0


From 221ee28dea02e1e987bbafe15da90069f5221d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:33 +0000
Subject: [PATCH 62/91] fix: BinWindows.write writes the windows

---
 python/CMBlikes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 12dd27b..bdc2668 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -130,11 +130,12 @@ class BinWindows(object):
         return cls
 
     def write(self, froot, stem):
-        if not os.path.exists(froot + stem + '_window'): os.mkdir(froot + '_window')
+        if not os.path.exists(froot + stem + '_window'): os.mkdir(froot + stem + '_window')
         for b in range(self.nbins):
             with open(froot + stem + '_window/window%u.dat' % (b + 1), 'w') as f:
-                for L in np.arange(self.lmin[b], self.lmax[b] + 1):
-                    f.write(("%5u " + "%10e" * len(self.cols_in) + "\n") % (L, self.binning_matrix[:, b, L]))
+                for i, L in enumerate(range(self.lmin, self.lmax + 1)):
+                    f.write(("%5u" + " %17.8e" * len(self.cols_out) + "\n")
+                            % ((L,) + tuple(self.binning_matrix[:, b, i])))
 
 
 class DatasetLikelihood(object):
-- 
2.43.0


From 0e5ecff1feb904332055c57242b1e06de7b3de65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:33 +0000
Subject: [PATCH 63/91] fix: write_likelihood_data writes one line for each L

---
 python/CMBlikes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index bdc2668..3c1dfc9 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -643,7 +643,7 @@ class DatasetLikelihood(object):
                 for i in range(self.nmaps_required):
                     for j in range(i + 1):
                         c.append(cls[i, j].CL[b - self.pcl_lmin])
-                f.write(("%I5 " + "%17.8e " * len(cols)) % tuple(c))
+                f.write(("%6u" + "%17.8e " * len(cols) + "\n") % tuple(c))
 
     def transform(self, C, Chat, Cfhalf):
         # HL transformation of the matrices
-- 
2.43.0


From 515d61028bed56c5c45f8407a250c5d1476d5029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:42 +0000
Subject: [PATCH 64/91] fix: spectra, windows and covariance of a single row or
 value load

---
 python/CMBlikes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/CMBlikes.py b/python/CMBlikes.py
index 3c1dfc9..73ae902 100644
--- a/python/CMBlikes.py
+++ b/python/CMBlikes.py
@@ -43,7 +43,7 @@ def readWithHeader(fname):
     x = lastTopComment(fname)
     if not x:
         raise Exception('No Comment')
-    return x.split(), np.loadtxt(fname)
+    return x.split(), np.loadtxt(fname, ndmin=2)
 
 
 class ClsArray(object):
@@ -80,7 +80,7 @@ class ClsArray(object):
         if cols is None:
             cols, dat = readWithHeader(filename)
         else:
-            dat = np.loadtxt(filename)
+            dat = np.loadtxt(filename, ndmin=2)
             if isinstance(cols, six.string_types): cols = cols.split()
         Lix = cols.index('L')
         L = dat[:, Lix].astype(int)
@@ -261,7 +261,7 @@ class DatasetLikelihood(object):
         else:
             incols = 'L ' + order
         cols = self.GetColsFromOrder(incols)
-        data = np.loadtxt(filename)
+        data = np.loadtxt(filename, ndmin=2)
         Ls = data[:, 0].astype(int)
         if self.binned: Ls -= 1
         for i, L in enumerate(Ls):
@@ -291,7 +291,7 @@ class DatasetLikelihood(object):
         bins.binning_matrix = np.zeros((norder, self.nbins_used, self.pcl_lmax - self.pcl_lmin + 1))
         windows = ini.relativeFileName(file_stem + '_files')
         for b in range(self.nbins_used):
-            window = np.loadtxt(windows % (b + 1 + self.bin_min))
+            window = np.loadtxt(windows % (b + 1 + self.bin_min), ndmin=2)
             Err = False
             for i, L in enumerate(window[:, 0].astype(int)):
                 if self.pcl_lmin <= L <= self.pcl_lmax:
@@ -511,7 +511,7 @@ class DatasetLikelihood(object):
         covmat_cl = ini.string('covmat_cl', allowEmpty=False)
         if ini.string('covmat_format', 'text') != 'text':
             raise Exception('Only text oovmat supported in python so far')
-        self.full_cov = np.loadtxt(ini.relativeFileName('covmat_fiducial'))
+        self.full_cov = np.loadtxt(ini.relativeFileName('covmat_fiducial'), ndmin=2)
         covmat_scale = ini.float('covmat_scale', 1.0)
         cl_in_index = self.UseString_to_cols(covmat_cl)
         self.ncl_used = np.sum(cl_in_index >= 0)
-- 
2.43.0


From 4aafcea0cfced79fc5bc62bd712f4826b1e896ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 65/91] fix: total covariance of a mixture uses the mean of all
 parameters

---
 python/getdist/gaussian_mixtures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 1c642f7..a51e870 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -43,8 +43,8 @@ class MixtureND:
         self.label = label
         self.total_mean = np.atleast_1d(np.dot(self.weights, self.means))
         self.total_cov = np.zeros((self.dim, self.dim))
-        for mean, cov, weight, totmean in zip(self.means, self.covs, self.weights, self.total_mean):
-            self.total_cov += weight * (cov + np.outer(mean - totmean, mean - totmean))
+        for mean, cov, weight in zip(self.means, self.covs, self.weights):
+            self.total_cov += weight * (cov + np.outer(mean - self.total_mean, mean - self.total_mean))
 
     def sim(self, size, random_state=None):
         """
-- 
2.43.0


From 3c0bdaa64c7bd4671aebe565e991b0bc145daf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 66/91] fix: MixtureND.getLower returns the lower limit

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index a51e870..f96028a 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -319,7 +319,7 @@ class MixtureND:
     def getLower(self, name):
         if self.lims is None:
             return None
-        return self.lims[self.names.index(name)][1]
+        return self.lims[self.names.index(name)][0]
 
 
 class Mixture2D(MixtureND):
-- 
2.43.0


From c940b0a489d02179a3255ef1afcd3f90c93e1347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 67/91] fix: density1D with no_limit_marge

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index f96028a..9b9c6c7 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -184,7 +184,7 @@ class MixtureND:
             self.checkNoLimits([index])
         mn, mx = self.autoRanges(sigma_max)[index]
         x = np.linspace(mn, mx, num_points)
-        like = self.pdf_marged(index, x)
+        like = self.pdf_marged(index, x, no_limit_marge=no_limit_marge)
         return Density1D(x, like)
 
     def density2D(self, params=None, num_points=1024, xmin=None, xmax=None, ymin=None, ymax=None, sigma_max=5):
-- 
2.43.0


From c48f0247c0c31a42093dd9a3f59c0b59890f8a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 68/91] fix: component weights of a conditional mixture

---
 python/getdist/gaussian_mixtures.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 9b9c6c7..9e19b10 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -282,14 +282,9 @@ class MixtureND:
             deltas = np.asarray(fixed_param_values) - mean[fixed_params]
             new_cov = np.linalg.inv(invcov[np.ix_(keep_params, keep_params)])
             new_mean = mean[keep_params] - new_cov.dot(invcov[np.ix_(keep_params, fixed_params)].dot(deltas))
-            if len(self.weights) == 1 and False:
-                logw = 0
-            else:
-                logw = invcov[np.ix_(fixed_params, fixed_params)].dot(deltas).dot(deltas) \
-                       + np.log(np.linalg.det(cov[np.ix_(fixed_params, fixed_params)]
-                                              - cov[np.ix_(fixed_params, keep_params)]
-                                              .dot(np.linalg.inv(cov[np.ix_(keep_params, keep_params)])
-                                                   .dot(cov[np.ix_(keep_params, fixed_params)]))))
+            # weight times the marginalized density of the component at the fixed values
+            fixed_cov = cov[np.ix_(fixed_params, fixed_params)]
+            logw = np.linalg.solve(fixed_cov, deltas).dot(deltas) + np.log(np.linalg.det(fixed_cov)) - 2 * np.log(weight)
             new_weights.append(logw)
             new_means.append(new_mean)
             new_covs.append(new_cov)
-- 
2.43.0


From c1861c5f2797c4da690bb1e5e5645fb11c6121fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:31 +0000
Subject: [PATCH 69/91] fix: conditional mixture keeps the label by default

---
 python/getdist/gaussian_mixtures.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 9e19b10..b5d50cc 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -294,6 +294,8 @@ class MixtureND:
             names = [self.names[i] for i in keep_params]
         else:
             names = None
+        if label is None:
+            label = self.label
         mixture = MixtureND(new_means, new_covs, new_weights, names=names, label=label)
         mixture.paramNames.setLabelsAndDerivedFromParamNames(self.paramNames)
         return mixture
-- 
2.43.0


From 4f42aa38d8a43d92b704d14857b667e1163c6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:03 +0000
Subject: [PATCH 70/91] fix: log likelihoods of samples from a 1D mixture are
 one-dimensional

---
 python/getdist/gaussian_mixtures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index b5d50cc..6892551 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -94,7 +94,7 @@ class MixtureND:
         """
         samples = self.sim(size, random_state=random_state)
         if logLikes:
-            loglikes = -np.log(self.pdf(samples))
+            loglikes = -np.log(self.pdf(samples)).reshape(-1)
         else:
             loglikes = None
         return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames),
-- 
2.43.0


From 0bc8df40434e185d9e79a15a449c4b74ff5448d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:07 +0000
Subject: [PATCH 71/91] fix: names given to MixtureND.MCSamples override those
 of the mixture

---
 python/getdist/gaussian_mixtures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/getdist/gaussian_mixtures.py b/python/getdist/gaussian_mixtures.py
index 6892551..e44dbde 100644
--- a/python/getdist/gaussian_mixtures.py
+++ b/python/getdist/gaussian_mixtures.py
@@ -97,7 +97,8 @@ class MixtureND:
             loglikes = -np.log(self.pdf(samples)).reshape(-1)
         else:
             loglikes = None
-        return MCSamples(samples=samples, loglikes=loglikes, paramNamesFile=copy.deepcopy(self.paramNames),
+        return MCSamples(samples=samples, loglikes=loglikes,
+                         paramNamesFile=copy.deepcopy(self.paramNames) if names is None else None,
                          names=names, ranges=self.lims, **kwargs)
 
     def autoRanges(self, sigma_max=4, lims=None):
-- 
2.43.0


From a1f17e91def474905af08239cc2edd4d181951a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 72/91] fix: burn-in already removed in Cobaya post-processing
 is recognized

---
 python/getdist/cobaya_interface.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 7cb5f02..0795c57 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -260,6 +260,6 @@ def get_sample_label(filename_or_info):
 
 
 def get_burn_removed(filename_or_info):
-    info = get_info_params(filename_or_info)
+    info = yaml_file_or_dict(filename_or_info)
     # if skip burn in *has already been done*
-    return info.get(_post, {}).get("skip", 0)
+    return (info.get(_post) or {}).get("skip", 0)
-- 
2.43.0


From deb75daabe696538cd8ba93dbc20fe03a0bca4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 73/91] fix: reading Cobaya parameters does not change the
 info, and allows any short form

---
 python/getdist/cobaya_interface.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 0795c57..9c54ee1 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -118,6 +118,15 @@ def str_to_list(x):
     return [x] if isinstance(x, str) else x
 
 
+def info_param_dict(info_param):
+    """
+    Gets a copy of the info of a parameter as a dictionary, from any of the forms allowed in the input.
+    """
+    if isinstance(info_param, Mapping):
+        return dict(info_param)
+    return {} if info_param is None else {_p_value: info_param}
+
+
 def get_info_params(info):
     """
     Extracts parameter info from the new yaml format.
@@ -127,7 +136,7 @@ def get_info_params(info):
     info_params = info.get(_params)
     info_params_full = dict()
     for p, pinfo in info_params.items():
-        info_params_full[p] = info_params[p]
+        info_params_full[p] = info_param_dict(pinfo)
     # Add prior and likelihoods
     priors = [_prior_1d_name] + list(info.get(_prior) or [])
     likes = list(info.get(_likelihood))
@@ -142,9 +151,7 @@ def get_info_params(info):
     add = info.get(_post, {}).get("add", {})
     # Adding derived params and updating 1d priors
     for param, pinfo in add.get(_params, {}).items():
-        pinfo_old = info_params_full.get(param, {})
-        pinfo_old.update(pinfo)
-        info_params_full[param] = pinfo_old
+        info_params_full[param] = dict(info_params_full.get(param, {}), **info_param_dict(pinfo))
     likes += list(add.get(_likelihood, []))
     priors += list(add.get(_prior, []))
     # Add the prior and the likelihood as derived parameters
-- 
2.43.0


From 69a435460835cfb30eefe239aa89919b68f18b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 74/91] fix: single parameter name to remove in Cobaya
 post-processing

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 9c54ee1..ad720d7 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -142,7 +142,7 @@ def get_info_params(info):
     likes = list(info.get(_likelihood))
     # Account for post
     remove = info.get(_post, {}).get("remove", {})
-    for param in remove.get(_params, []) or []:
+    for param in str_to_list(remove.get(_params) or []):
         info_params_full.pop(param, None)
     for like in str_to_list(remove.get(_likelihood) or []):
         likes.remove(like)
-- 
2.43.0


From 705f9f0817f9e84f2ea811d942060fe699043bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 75/91] fix: get_range does not change the prior it is given

---
 python/getdist/cobaya_interface.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index ad720d7..57da9cf 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -170,21 +170,19 @@ def get_info_params(info):
 def get_range(param_info):
     # Sampled
     if is_sampled_param(param_info):
-        if isinstance(param_info[_prior], Sequence) and len(param_info[_prior]) == 2:
-            param_info[_prior] = \
-                {lim: n for lim, n in zip(["min", "max"], param_info[_prior])}
-        elif not isinstance(param_info[_prior], Mapping):
+        prior = param_info[_prior]
+        if isinstance(prior, Sequence) and len(prior) == 2:
+            prior = {lim: n for lim, n in zip(["min", "max"], prior)}
+        elif not isinstance(prior, Mapping):
             raise ValueError(
-                "Format of prior not recognised: %r. " % param_info[_prior] +
+                "Format of prior not recognised: %r. " % prior +
                 "Use '[min, max]' or a dictionary following Cobaya's documentation.")
-        info_lims = dict((tag, param_info[_prior].get(tag))
-                         for tag in ["min", "max", "loc", "scale"])
-        if info_lims["min"] is not None or info_lims["max"] is not None:
-            lims = [param_info[_prior].get("min"), param_info[_prior].get("max")]
-        elif info_lims["loc"] is not None or info_lims["scale"] is not None:
-            dist = param_info[_prior].pop(_p_dist, "uniform")
+        if prior.get("min") is not None or prior.get("max") is not None:
+            lims = [prior.get("min"), prior.get("max")]
+        else:
+            dist = prior.get(_p_dist, "uniform")
             pdf_dist = getattr(import_module("scipy.stats", dist), dist)
-            lims = pdf_dist.interval(1, **param_info[_prior])
+            lims = pdf_dist.interval(1, **{k: v for k, v in prior.items() if k != _p_dist})
     # Derived
     elif is_derived_param(param_info):
         lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(param_info or {})
-- 
2.43.0


From 2b5ff5434f5ebb7da6ac3ba95975a0efd81207e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:24 +0000
Subject: [PATCH 76/91] fix: range of a parameter set by a function that is not
 saved

---
 python/getdist/cobaya_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 57da9cf..5757527 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -191,7 +191,7 @@ def get_range(param_info):
         value = fixed_value(param_info)
         try:
             value = float(value)
-        except ValueError:
+        except (ValueError, TypeError):
             # e.g. lambda function values
             lims = (lambda i: [i.get("min", -np.inf), i.get("max", np.inf)])(
                 param_info or {})
-- 
2.43.0


From 49ff8f6893ebd24b4969dc83198abec092687520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:05 +0000
Subject: [PATCH 77/91] fix: get_range accepts any short form of a parameter

---
 python/getdist/cobaya_interface.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/cobaya_interface.py b/python/getdist/cobaya_interface.py
index 5757527..bd42a26 100644
--- a/python/getdist/cobaya_interface.py
+++ b/python/getdist/cobaya_interface.py
@@ -168,6 +168,7 @@ def get_info_params(info):
 
 # noinspection PyUnboundLocalVariable
 def get_range(param_info):
+    param_info = info_param_dict(param_info)
     # Sampled
     if is_sampled_param(param_info):
         prior = param_info[_prior]
-- 
2.43.0


From 71fb98a29382717a92e3a49772d4467497c94109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:48 +0000
Subject: [PATCH 78/91] fix: loadMCSamples of a root in the current directory

---
 python/getdist/mcsamples.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 6dc16e2..e50f327 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -70,7 +70,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         path = cache_dir
     else:
         cache_name = name
-    if not os.path.exists(path):
+    if path and not os.path.exists(path):
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
     samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
@@ -80,7 +80,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         folder = os.path.dirname(file_root)
         prefix = os.path.basename(file_root)
         allfiles = files + [
-            os.path.join(folder, f) for f in os.listdir(folder) if (
+            os.path.join(folder, f) for f in os.listdir(folder or os.curdir) if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
     if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
-- 
2.43.0


From f460a877a30a3a37a609fb170182c3666d89dff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:48 +0000
Subject: [PATCH 79/91] fix: cache of loaded samples is not used when chain
 files are removed or restored, or settings differ

---
 python/getdist/mcsamples.py | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index e50f327..1b0e0bf 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -74,29 +74,28 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
         os.mkdir(path)
     cachefile = os.path.join(path, cache_name) + '.py_mcsamples'
     samples = MCSamples(file_root, jobItem=jobItem, ini=ini, settings=settings)
-    if os.path.isfile(file_root + '.paramnames'):
-        allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
-    else:  # Cobaya
+    if not len(files):
+        raise IOError('No chains found: ' + file_root)
+    allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
+    if not os.path.isfile(file_root + '.paramnames'):  # Cobaya
         folder = os.path.dirname(file_root)
         prefix = os.path.basename(file_root)
-        allfiles = files + [
+        allfiles += [
             os.path.join(folder, f) for f in os.listdir(folder or os.curdir) if (
                     f.startswith(prefix) and
                     any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
+    # everything apart from settings that determines what is loaded
+    samples.cache_key = (sorted((os.path.basename(f), os.path.getmtime(f), os.path.getsize(f))
+                                for f in allfiles if os.path.exists(f)), samples._burnFraction())
     if not no_cache and os.path.exists(cachefile) and last_modified(allfiles) < os.path.getmtime(cachefile):
         try:
             with open(cachefile, 'rb') as inp:
                 cache = pickle.load(inp)
-            if cache.version == pickle_version and samples.ignore_rows == cache.ignore_rows \
-                    and samples.min_weight_ratio == cache.min_weight_ratio:
-                changed = len(samples.contours) != len(cache.contours) or \
-                          np.any(np.array(samples.contours) != np.array(cache.contours))
-                cache.updateSettings(ini=ini, settings=settings, doUpdate=changed)
+            if cache.version == pickle_version and cache.cache_key == samples.cache_key \
+                    and cache.ini.params == samples.ini.params:
                 return cache
         except Exception:
             pass
-    if not len(files):
-        raise IOError('No chains found: ' + file_root)
     samples.readChains(files)
     if no_cache:
         if os.path.exists(cachefile):
@@ -455,6 +454,15 @@ class MCSamples(Chains):
         if doUpdate and self.samples is not None:
             self.updateBaseStatistics()
 
+    def _burnFraction(self):
+        """
+        Gets the fraction of rows to remove as burn in when chains are read
+        """
+        if self.ignore_frac and (not self.jobItem or not hasattr(self.jobItem, "isImportanceJob")
+                                 or (not self.jobItem.isImportanceJob and not self.jobItem.isBurnRemoved())):
+            return self.ignore_frac
+        return 0
+
     def readChains(self, files_or_samples, weights=None, loglikes=None):
         """
         Loads samples from a list of files or array(s), removing burn in,
@@ -467,8 +475,7 @@ class MCSamples(Chains):
         """
         self.loadChains(self.root, files_or_samples, weights=weights, loglikes=loglikes)
 
-        if self.ignore_frac and (not self.jobItem or not hasattr(self.jobItem, "isImportanceJob")
-                                 or (not self.jobItem.isImportanceJob and not self.jobItem.isBurnRemoved())):
+        if self._burnFraction():
             self.removeBurnFraction(self.ignore_frac)
             chains.print_load_line('Removed %s as burn in' % self.ignore_frac)
         elif not int(self.ignore_rows):
-- 
2.43.0


From 3da8f01195fb0c898abe4a65c7abc02635c4280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:48 +0000
Subject: [PATCH 80/91] fix: cached samples have the root and job they are
 loaded with

---
 python/getdist/mcsamples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 1b0e0bf..092f1e4 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -93,6 +93,7 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
                 cache = pickle.load(inp)
             if cache.version == pickle_version and cache.cache_key == samples.cache_key \
                     and cache.ini.params == samples.ini.params:
+                cache.root, cache.jobItem, cache.batch_path = samples.root, samples.jobItem, samples.batch_path
                 return cache
         except Exception:
             pass
-- 
2.43.0


From 6766be69fac7e5ede671d346c495dd7bba1c68ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:48 +0000
Subject: [PATCH 81/91] fix: MCSamples does not change the settings it is given

---
 python/getdist/mcsamples.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 092f1e4..e11f282 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -211,9 +211,7 @@ class MCSamples(Chains):
         self.rootdirname = ""
         self.indep_thin = 0
         if 'ignore_rows' in kwargs:
-            if settings is None:
-                settings = {}
-            settings['ignore_rows'] = kwargs['ignore_rows']
+            settings = dict(settings or {}, ignore_rows=kwargs['ignore_rows'])
         self.ignore_rows = float(kwargs.get('ignore_rows', 0))
         # Do not remove burn-in for nested sampler samples
         if self.sampler == "nested" and not np.isclose(self.ignore_rows, 0):
-- 
2.43.0


From 00f4cc029faa2c66390576bf8da47c51da570d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:55 +0000
Subject: [PATCH 82/91] fix: cached samples are not used when a Cobaya file
 next to a .paramnames file changes

---
 python/getdist/mcsamples.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index e11f282..95ab70b 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -77,13 +77,13 @@ def loadMCSamples(file_root: str, ini: Union[None, str, IniFile] = None,
     if not len(files):
         raise IOError('No chains found: ' + file_root)
     allfiles = files + [file_root + '.ranges', file_root + '.paramnames', file_root + '.properties.ini']
-    if not os.path.isfile(file_root + '.paramnames'):  # Cobaya
-        folder = os.path.dirname(file_root)
-        prefix = os.path.basename(file_root)
-        allfiles += [
-            os.path.join(folder, f) for f in os.listdir(folder or os.curdir) if (
-                    f.startswith(prefix) and
-                    any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
+    # Cobaya
+    folder = os.path.dirname(file_root)
+    prefix = os.path.basename(file_root)
+    allfiles += [
+        os.path.join(folder, f) for f in os.listdir(folder or os.curdir) if (
+                f.startswith(prefix) and
+                any(f.lower().endswith(end) for end in ['updated.yaml', 'full.yaml']))]
     # everything apart from settings that determines what is loaded
     samples.cache_key = (sorted((os.path.basename(f), os.path.getmtime(f), os.path.getsize(f))
                                 for f in allfiles if os.path.exists(f)), samples._burnFraction())
-- 
2.43.0


From 1667d159b304249070455b5d24e4bcb63229a2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 83/91] fix: saveAsText with a file name ending .txt, or making
 no directory

---
 python/getdist/chains.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index 67c72e5..b24a384 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -1050,10 +1050,10 @@ class WeightedSamples:
             loglikes = self.loglikes
         else:
             loglikes = np.zeros(self.numrows)
-        if make_dirs and not os.path.exists(os.path.dirname(root)):
+        if make_dirs and os.path.dirname(root) and not os.path.exists(os.path.dirname(root)):
             os.makedirs(os.path.dirname(root))
         if root.endswith('.txt'):
-            root = root[:-3]
+            root = root[:-4]
         # noinspection PyTypeChecker
         np.savetxt(root + ('' if chain_index is None else '_' + str(chain_index + 1)) + '.txt',
                    np.hstack((self.weights.reshape(-1, 1), loglikes.reshape(-1, 1), self.samples)),
@@ -1551,7 +1551,7 @@ class Chains(WeightedSamples):
         """
         super().saveAsText(root, chain_index, make_dirs)
         if not chain_index:
-            self.saveTextMetadata(root)
+            self.saveTextMetadata(root[:-4] if root.endswith('.txt') else root)
 
     def saveTextMetadata(self, root):
         """
-- 
2.43.0


From 1abd328df59f1bef0bfb82dc74d51b6379c8a095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:00 +0000
Subject: [PATCH 84/91] fix: type of sampler is saved with the samples

---
 python/getdist/mcsamples.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/getdist/mcsamples.py b/python/getdist/mcsamples.py
index 95ab70b..ec5b7d7 100644
--- a/python/getdist/mcsamples.py
+++ b/python/getdist/mcsamples.py
@@ -2432,7 +2432,7 @@ class MCSamples(Chains):
         super().saveTextMetadata(root)
         self.ranges.saveToFile(root + '.ranges')
         ini_name = root + '.properties.ini'
-        if properties or self.properties and self.properties.params or self.label:
+        if properties or self.properties and self.properties.params or self.label or self.sampler != 'mcmc':
             if os.path.exists(ini_name):
                 ini = IniFile(ini_name)
             else:
@@ -2441,6 +2441,8 @@ class MCSamples(Chains):
                 ini.params.update(self.properties.params)
             if self.label:
                 ini.params.update({'label': self.label})
+            if self.sampler != 'mcmc' or 'sampler' in ini.params:
+                ini.params.update({'sampler': self.sampler})
             ini.params.update(properties or {})
             ini.saveFile(ini_name)
         elif os.path.exists(ini_name):
-- 
2.43.0


From 80d36a305827a8bd4f6b509f79e962c59373d6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:06 +0000
Subject: [PATCH 85/91] fix: chain files are in order of chain number

---
 python/getdist/chains.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/getdist/chains.py b/python/getdist/chains.py
index b24a384..92cb585 100644
--- a/python/getdist/chains.py
+++ b/python/getdist/chains.py
@@ -105,8 +105,8 @@ def chainFiles(root, chain_indices=None, ext='.txt', separator="_",
             if (chain_indices is None or index in chain_indices) \
                     and (chain_exclude is None or index not in chain_exclude) \
                     and index >= first_chain and (last_chain < 0 or index <= last_chain):
-                files.append(os.path.join(folder, f))
-    return files
+                files.append((index, os.path.join(folder, f)))
+    return [f for _, f in sorted(files)]
 
 
 def hasChainFiles(file_root, ext='.txt'):
-- 
2.43.0


From 89a6576f085d338c2fca50a3a0223a9058ae12ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:10 +0000
Subject: [PATCH 86/91] fix: GetDist removes burn in once, and not when it is
 already removed

---
 python/getdist/command_line.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/python/getdist/command_line.py b/python/getdist/command_line.py
index df61b80..bc53790 100644
--- a/python/getdist/command_line.py
+++ b/python/getdist/command_line.py
@@ -66,11 +66,6 @@ def getdist_script(args, exit_on_error=True):
         do_error('Chain Root file name not given ')
     rootname = os.path.basename(in_root)
 
-    if args.ignore_rows is not None:
-        ignorerows = args.ignore_rows
-    else:
-        ignorerows = ini.float('ignore_rows', 0.0)
-
     samples_are_chains = ini.bool('samples_are_chains', True)
 
     paramnames = ini.string('parameter_names', '')
@@ -78,6 +73,12 @@ def getdist_script(args, exit_on_error=True):
     # Create instance of MCSamples
     mc = MCSamples(in_root, ini=ini, files_are_chains=samples_are_chains, paramNamesFile=paramnames)
 
+    if args.ignore_rows is not None:
+        ignorerows = args.ignore_rows
+    else:
+        # as set in ini, or by the properties of the chain (burn in may already be removed)
+        ignorerows = mc.ignore_lines or mc.ignore_frac
+
     if ini.bool('adjust_priors', False) or ini.bool('map_params', False):
         do_error('To adjust priors or define new parameters, use a separate python script; '
                  'see the python getdist docs for examples')
@@ -143,9 +144,10 @@ def getdist_script(args, exit_on_error=True):
         if chain_files:
             break
 
-    mc.loadChains(in_root, chain_files)
+    mc.loadChains(in_root, chain_files, ignore_lines=int(ignorerows))
 
-    mc.removeBurnFraction(ignorerows)
+    if ignorerows < 1:
+        mc.removeBurnFraction(ignorerows)
     if chains.print_load_details:
         if ignorerows:
             doprint('Removed %s as burn in' % ignorerows)
-- 
2.43.0


From c6ebeab3d84a926274d51bf46359d20176a451ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 87/91] fix: plotting a normalized density leaves the samples'
 density alone

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 60b0ec0..6bb159a 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -973,6 +973,7 @@ class GetDistPlotter(_BaseObject):
 
         title_limit = title_limit if title_limit is not None else self.settings.title_limit
         if normalized:
+            density = copy.copy(density)  # do not change the cached density
             density.normalize()
 
         kwargs = self._get_line_styles(plotno, **kwargs)
-- 
2.43.0


From 7f2163e7bd373f746af72f63c4f7c984966e67f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 88/91] fix: line width of mean likelihoods is the setting
 linewidth_meanlikes

---
 python/getdist/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 6bb159a..7f0a0ca 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -982,7 +982,7 @@ class GetDistPlotter(_BaseObject):
         if kwargs.get('dashes'):
             l.set_dashes(kwargs['dashes'])
         if self.settings.plot_meanlikes:
-            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_likes)
+            kwargs['lw'] = self._scaled_linewidth(self.settings.linewidth_meanlikes)
             ax.plot(density.x, density.likes, **kwargs)
         if title_limit:
             if isinstance(root, MixtureND):
-- 
2.43.0


From 938bd0e604a71341170fa9fda551ce1dcbe30b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 89/91] fix: plotting does not change the caller's list of line
 arguments

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 7f0a0ca..623a33c 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -1366,6 +1366,7 @@ class GetDistPlotter(_BaseObject):
             line_args = [{}] * nroots
         elif isinstance(line_args, Mapping):
             line_args = [line_args] * nroots
+        line_args = list(line_args)
         if len(line_args) < nroots:
             line_args += [{}] * (nroots - len(line_args))
         colors = self._get_color_at_index(kwargs.get('colors'))
-- 
2.43.0


From c2b5c83607e6f11f6b4a8e7ac288a229f529b2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 90/91] fix: each line has its own copy of settings.plot_args

---
 python/getdist/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 623a33c..6d7a683 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -783,6 +783,7 @@ class GetDistPlotter(_BaseObject):
         else:
             raise GetDistPlotError(
                 'plot_args must be list of dictionaries or dictionary: %s' % self.settings.plot_args)
+        args = dict(args)
         args.update(kwargs)
         return args
 
-- 
2.43.0


From 2bc3da7106f3d9f19bae2e2e0c788b42973b54b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 91/91] fix: settings of a chain folder apply to the chains
 found in it

---
 python/getdist/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/getdist/plots.py b/python/getdist/plots.py
index 6d7a683..7b576ab 100644
--- a/python/getdist/plots.py
+++ b/python/getdist/plots.py
@@ -512,10 +512,10 @@ class MCSampleAnalysis(_BaseObject):
                         break
                 else:
                     file_root = findChainFileRoot(chain_dir, root)
-                    dir_ini = os.path.join(chain_dir, 'getdist.ini')
-                    if os.path.exists(dir_ini):
-                        dist_settings.update(IniFile(dir_ini).params)
                     if file_root:
+                        dir_ini = os.path.join(chain_dir, 'getdist.ini')
+                        if os.path.exists(dir_ini):
+                            dist_settings.update(IniFile(dir_ini).params)
                         break
 
         if not file_root:
-- 
2.43.0

