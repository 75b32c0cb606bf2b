From b284e5d2846d7e8240e7a1c6869c8ae48c2ad903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:24 +0000
Subject: [PATCH 01/64] fix: loadData falls back to integer timestamps if
 supplied ones are omitted

---
 bayesloop/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index a84b573..1716522 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -113,6 +113,7 @@ class Study(object):
             if len(timestamps) == len(array):
                 self.rawTimestamps = np.array(timestamps)
             else:
+                self.rawTimestamps = np.arange(len(self.rawData))
                 if not silent:
                     print('! WARNING: Number of timestamps does not match number of data points. Omitting timestamps.')
         else:  # set default timestamps (integer range)
-- 
2.43.0


From 770904544efb0c7e6122374e5f575d3a459ffe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:28 +0000
Subject: [PATCH 02/64] fix: prior supplied as array is copied and always
 converted to a density

---
 bayesloop/core.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 1716522..32e59a6 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -208,14 +208,14 @@ class Study(object):
         # check whether correctly shaped numpy array is provided
         if isinstance(prior, np.ndarray):
             if np.all(prior.shape == self.grid[0].shape):
+                prior = np.array(prior, dtype=float)  # do not alter the array supplied by the user
                 norm = np.sum(prior)
-                if norm != 1.:
-                    prior /= norm
-                    prior /= np.prod(self.latticeConstant)
-                    if not silent:
+                prior /= norm
+                prior /= np.prod(self.latticeConstant)  # convert to prob. density
+                if not silent:
+                    if norm != 1.:
                         print('    + Set prior (numpy array). Values have been re-normalized.')
-                else:
-                    if not silent:
+                    else:
                         print('    + Set prior (numpy array).')
                 return prior
             else:
-- 
2.43.0


From d0ae741889c7f07c5ce8bba078b999be933d17ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:32 +0000
Subject: [PATCH 03/64] fix: prior supplied as function is always converted to
 a density

---
 bayesloop/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 32e59a6..5c58bec 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -225,13 +225,12 @@ class Study(object):
         if hasattr(prior, '__call__'):
             values = prior(*self.grid)*np.ones(self.gridSize)  # last factor for cases like lambda x: 1.
             norm = np.sum(values)
-            if norm != 1.:
-                values /= norm
-                values /= np.prod(self.latticeConstant)
-                if not silent:
+            values /= norm
+            values /= np.prod(self.latticeConstant)  # convert to prob. density
+            if not silent:
+                if norm != 1.:
                     print('    + Set prior (function): {}. Values have been re-normalized.'.format(prior.__name__))
-            else:
-                if not silent:
+                else:
                     print('    + Set prior (function): {}'.format(prior.__name__))
             return values
 
-- 
2.43.0


From 327b288163a40b4257a77328260e6163da0c28e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:35 +0000
Subject: [PATCH 04/64] fix: hyper-prior values are evaluated on a float copy
 of the user input

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5c58bec..c48f977 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1192,7 +1192,7 @@ class HyperStudy(Study):
 
             elif hasattr(prior, '__call__'):  # prior specified by function
                 try:
-                    priorValues = np.array([prior(value) for value in values])
+                    priorValues = np.array([prior(value) for value in values], dtype=float)
                     norm = np.sum(priorValues)
                     priorValues /= norm
                     priorValues /= gridConst
@@ -1207,7 +1207,7 @@ class HyperStudy(Study):
             elif isinstance(prior, Iterable):  # prior specified by list/array
                 if len(prior) != len(values):
                     raise ConfigurationError('Failed to set hyper-prior for "{}" from list/array.'.format(name))
-                priorValues = prior
+                priorValues = np.array(prior, dtype=float)  # do not alter the array supplied by the user
                 norm = np.sum(priorValues)
                 priorValues /= norm
                 priorValues /= gridConst
-- 
2.43.0


From fb74cad947613976de355caad4e5f1a3ffd08635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:37 +0000
Subject: [PATCH 05/64] fix: BivariateRandomWalk converts list of rho values

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index f8f494a..71d7571 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -855,7 +855,7 @@ class BivariateRandomWalk(TransitionModel):
         if isinstance(value2, (list, tuple)):
             value2 = np.array(value2)
         if isinstance(value3, (list, tuple)):
-            value2 = np.array(value3)
+            value3 = np.array(value3)
 
         self.study = None
         self.latticeConstant = None
-- 
2.43.0


From fd5225b5339d17c9dbe2a5ada90e438687496c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:04 +0000
Subject: [PATCH 06/64] fix: Deterministic transition model stores supplied
 list of hyper-priors

---
 bayesloop/transitionModels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 71d7571..4584623 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -538,6 +538,7 @@ class Deterministic(TransitionModel):
                     raise ConfigurationError('{} priors are defined for transition model "{}", but model contains {}'
                                              'hyper-parameters.'
                                              .format(len(prior), self.function.__name__, len(argspec.defaults)))
+                self.prior = list(prior)
             # if single prior is defined, pack it in a list
             else:
                 self.prior = [prior]
-- 
2.43.0


From 2e2c07748b8bc875367189a36896ccd31e910369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:08 +0000
Subject: [PATCH 07/64] fix: OnlineStudy passes time of the preceding step to
 transition models

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c48f977..12a7675 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2164,7 +2164,7 @@ class OnlineStudy(HyperStudy):
                     alphai = prior*likelihood
                 else:  # in all other time steps transform "old" alpha/posterior
                     alphai = self.transitionModel.computeForwardPrior(self.parameterPosterior[i][j],
-                                                                      len(self.formattedData)-1)*likelihood
+                                                                      self.formattedTimestamps[-2])*likelihood
                 ni = np.sum(alphai)
 
                 # update log-evidence list
-- 
2.43.0


From cfae6369f818b4bf44eec3f2a0b5a6c0c943a5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:12 +0000
Subject: [PATCH 08/64] fix: OnlineStudy.getParameterMeanValue uses the
 complete distribution of the time step

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 12a7675..5f8ada6 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2539,7 +2539,7 @@ class OnlineStudy(HyperStudy):
 
         parameterDistribution = self.posteriorSequence[timeIndex]
 
-        mean = np.sum(parameterDistribution[t] * self.grid[paramIndex])
+        mean = np.sum(parameterDistribution * self.grid[paramIndex])
         return mean
 
     def getParameterMeanValues(self, name):
-- 
2.43.0


From 856c28c3f1cad7a25bb435d424c7748a86993ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:15 +0000
Subject: [PATCH 09/64] fix: OnlineStudy.getPD passes on the density flag

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5f8ada6..f4c9f1e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2263,7 +2263,7 @@ class OnlineStudy(HyperStudy):
         """
         See :meth:`.OnlineStudy.getParameterDistribution`.
         """
-        return self.getParameterDistribution(t, name, plot=plot, **kwargs)
+        return self.getParameterDistribution(t, name, plot=plot, density=density, **kwargs)
 
     def getCurrentParameterDistribution(self, name, plot=False, density=True, **kwargs):
         """
-- 
2.43.0


From 2f486f5d93ec5bd81e2cff335e39d4627aa9ef33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:18 +0000
Subject: [PATCH 10/64] fix: reading out a hyper-parameter distribution does
 not rescale the stored one

---
 bayesloop/core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index f4c9f1e..aed2a06 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1565,7 +1565,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x = self.flatHyperParameters[paramIndex]
@@ -1641,7 +1641,7 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
         x, y = [self.flatHyperParameters[i] for i in paramIndices]
@@ -2755,7 +2755,7 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
-- 
2.43.0


From bbc47b71b7b55c0ccb81463b51ed86a9cfac94df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:20 +0000
Subject: [PATCH 11/64] fix: plotting the parameter evolution does not alter
 the stored posterior

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index aed2a06..10f8d43 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1042,7 +1042,8 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize))
+        marginalPosteriorSequence = np.squeeze(
+            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From c33e3b72799430f08a31520e10991bacfee25f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:58 +0000
Subject: [PATCH 12/64] fix: OnlineStudy.getHyperParameterDistribution returns
 probability values as documented

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 10f8d43..50377a9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2698,7 +2698,8 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize))
+        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
 
         x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
         if plot:
-- 
2.43.0


From 58df48f594b401b0390708d81ff3b38ec303464e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:01 +0000
Subject: [PATCH 13/64] fix: time-averaged hyper-parameter distribution of
 OnlineStudy with several transition models

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 50377a9..5d01498 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2682,7 +2682,8 @@ class OnlineStudy(HyperStudy):
         # access hyper-parameter distribution
         if t == 'avg':
             # compute time-averaged distribution
-            hyperParameterDistribution = np.sum(self.hyperParameterSequence, axis=0)/len(self.hyperParameterSequence)
+            hyperParameterDistribution = [np.sum(h, axis=0)/len(self.hyperParameterSequence)
+                                          for h in zip(*self.hyperParameterSequence)]
         else:
             # try to access distribution of specified time step
             if t not in self.formattedTimestamps:
-- 
2.43.0


From 153d97ce11e76e60b24b654f4314c2b176825b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:04 +0000
Subject: [PATCH 14/64] fix: OnlineStudy hyper-parameter distributions with
 additional single-valued hyper-parameters

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5d01498..5f7dcf9 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2697,7 +2697,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
@@ -2756,7 +2756,7 @@ class OnlineStudy(HyperStudy):
         axesToMarginalize.remove(hpIndex)
 
         # reshape hyper-parameter grid for easy marginalization
-        hyperGridSteps = [len(x) for x in self.allFlatHyperParameterValues[tmIndex]]
+        hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
         marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
-- 
2.43.0


From 3a7d99bebb5089350e947a1bb87b404fb898fc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:07 +0000
Subject: [PATCH 15/64] fix: OnlineStudy can be continued after a failed
 read-out of past distributions

---
 bayesloop/core.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5f7dcf9..daef091 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2253,11 +2253,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistribution(self, t, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPD(self, t, name, plot=False, density=True, **kwargs):
@@ -2344,11 +2345,12 @@ class OnlineStudy(HyperStudy):
         self.formattedTimestamps = np.array(self.formattedTimestamps)
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            x, p = Study.getParameterDistributions(self, name, plot=plot, density=density, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorSequence = list(self.posteriorSequence)
         return x, p
 
     def getPDs(self, name, plot=False, density=True, **kwargs):
@@ -2377,12 +2379,13 @@ class OnlineStudy(HyperStudy):
         self.posteriorMeanValues = np.array(self.posteriorMeanValues).T
         self.posteriorSequence = np.array(self.posteriorSequence)
 
-        Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
-
-        # re-transform arrays to lists, so online study may continue to append values
-        self.formattedTimestamps = list(self.formattedTimestamps)
-        self.posteriorMeanValues = list(self.posteriorMeanValues.T)
-        self.posteriorSequence = list(self.posteriorSequence)
+        try:
+            Study.plotParameterEvolution(self, name, color=color, gamma=gamma, **kwargs)
+        finally:
+            # re-transform arrays to lists, so online study may continue to append values
+            self.formattedTimestamps = list(self.formattedTimestamps)
+            self.posteriorMeanValues = list(self.posteriorMeanValues.T)
+            self.posteriorSequence = list(self.posteriorSequence)
 
     def getCurrentTransitionModelDistribution(self, local=False):
         """
-- 
2.43.0


From 23535afd42cc858da181ad3876eab1ec63b7d308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:10 +0000
Subject: [PATCH 16/64] fix: OnlineStudy does not keep the first data point if
 the configuration is rejected

---
 bayesloop/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index daef091..ef13ac3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2088,7 +2088,11 @@ class OnlineStudy(HyperStudy):
 
             # check the model consistency the first time that 'step' is called
             self.rawData = np.array(dataPoint)
-            Study._checkConsistency(self)
+            try:
+                Study._checkConsistency(self)
+            except ConfigurationError:
+                self.rawData = np.array([])  # data point is not included
+                raise
 
             self.rawTimestamps = np.array([0])
             self.formattedTimestamps = []
-- 
2.43.0


From 49402220fab84f850d27f66d3e45bf6efe56b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:30 +0000
Subject: [PATCH 17/64] fix: Bernoulli likelihood does not alter the parameter
 grid and excludes invalid probabilities

---
 bayesloop/observationModels.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 10277c7..9a3f122 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -427,15 +427,14 @@ class Bernoulli(ObservationModel):
         Returns:
             ndarray: Discretized Bernoulli pdf (with same shape as grid)
         """
-        temp = grid[0][:]  # make copy of parameter grid
-        temp[temp > 1.] = 0.  # p < 1
-        temp[temp < 0.] = 0.  # p > 0
+        temp = grid[0].copy()  # make copy of parameter grid
 
-        if dataSegment[0]:
-            pass  # pdf = p
-        else:
+        if not dataSegment[0]:
             temp = 1. - temp  # pdf = 1 - p
 
+        temp[grid[0] > 1.] = 0.  # p < 1
+        temp[grid[0] < 0.] = 0.  # p > 0
+
         return temp
 
     def estimateParameterValues(self, name, rawData):
-- 
2.43.0


From 323a582f51d301f16ebbf8595b7f2e1f812b9c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:34 +0000
Subject: [PATCH 18/64] fix: estimated parameter values of Bernoulli model
 avoid singularities of the Jeffreys prior

---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 9a3f122..7470e66 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -452,7 +452,7 @@ class Bernoulli(ObservationModel):
 
         if name == self.parameterNames[0]:
             # The parameter of the Bernoulli model is naturally constrained to the [0, 1] interval
-            return cint(0, 1, 1000)
+            return oint(0, 1, 1000)  # open interval, Jeffreys prior diverges at the boundaries
         else:
             raise ConfigurationError('Bernoulli model does not contain a parameter "{}".'.format(name))
 
-- 
2.43.0


From b543266eba9e6154cf8120b81c635ea22fa691bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:36 +0000
Subject: [PATCH 19/64] fix: Poisson likelihood handles float-valued counts

---
 bayesloop/observationModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 7470e66..9f15799 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -498,7 +498,7 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / (np.math.factorial(dataSegment[0]))
+        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / factorial(dataSegment[0])
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From cf2a23d66d9b4844370f42629ba174f6652eea84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:39 +0000
Subject: [PATCH 20/64] fix: NotEqual transition model accepts integer
 exponents

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 4584623..68e0f3b 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -459,7 +459,7 @@ class NotEqual(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         newPrior = posterior.copy()
-        limit = (10**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
+        limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 95188bd520cbc6d048911cf6c1ec4f2726f8673a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:42 +0000
Subject: [PATCH 21/64] fix: NotEqual transition model handles uniform
 distributions

---
 bayesloop/transitionModels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 68e0f3b..d2595b7 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -462,7 +462,8 @@ class NotEqual(TransitionModel):
         limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
         newPrior = np.amax(newPrior) - newPrior
-        newPrior /= np.sum(newPrior)
+        if np.sum(newPrior) > 0.:  # inverse of a uniform distribution is zero everywhere
+            newPrior /= np.sum(newPrior)
         newPrior[newPrior < limit] = limit
 
         # transformation above violates proper normalization; re-normalization needed
-- 
2.43.0


From fd5941a791c2496c8b3d86d0b33dfe762deb5a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:45 +0000
Subject: [PATCH 22/64] fix: failed save does not destroy an existing file

---
 bayesloop/fileIO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/fileIO.py b/bayesloop/fileIO.py
index 5fa3a32..a8af7c2 100644
--- a/bayesloop/fileIO.py
+++ b/bayesloop/fileIO.py
@@ -15,8 +15,9 @@ def save(filename, study):
         filename(str): Path + filename to store bayesloop study
         study: Instance of study class (Study, HyperStudy, etc.)
     """
+    data = cloudpickle.dumps(study)  # serialize first, so a failure does not destroy an existing file
     with open(filename, 'wb') as f:
-        cloudpickle.dump(study, f)
+        f.write(data)
     print('+ Successfully saved current study.')
 
 
-- 
2.43.0


From 9893e1b82627ce8aa35a724455baadb5219c0c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 23/64] fix: Poisson likelihood handles counts beyond the range
 of the float factorial

---
 bayesloop/observationModels.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/observationModels.py b/bayesloop/observationModels.py
index 9f15799..b26e1f2 100644
--- a/bayesloop/observationModels.py
+++ b/bayesloop/observationModels.py
@@ -12,7 +12,7 @@ import sympy.abc as abc
 from sympy import lambdify
 from sympy.stats import density
 from .jeffreys import getJeffreysPrior
-from scipy.special import iv, factorial
+from scipy.special import iv, factorial, gammaln, xlogy
 from .exceptions import ConfigurationError, PostProcessingError
 from .helper import cint, oint, freeSymbols
 import warnings
@@ -498,7 +498,7 @@ class Poisson(ObservationModel):
         Returns:
             ndarray: Discretized Poisson pdf (with same shape as grid)
         """
-        return (grid[0] ** dataSegment[0]) * (np.exp(-grid[0])) / factorial(dataSegment[0])
+        return np.exp(xlogy(dataSegment[0], grid[0]) - grid[0] - gammaln(dataSegment[0] + 1.))
 
     def estimateParameterValues(self, name, rawData):
         """
-- 
2.43.0


From dfa96a70db560a9e3ffbed0b0c1e14e7f9cc1cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:11 +0000
Subject: [PATCH 24/64] fix: backward pass of ChangePoint and Independent does
 not count the prior twice

---
 bayesloop/transitionModels.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index d2595b7..01e8d8c 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -314,7 +314,11 @@ class ChangePoint(TransitionModel):
             return posterior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # data after the change-point does not contain information about parameter values before the change-point
+        if t - 1 == self.hyperParameterValues[0]:
+            return np.ones(self.study.gridSize)
+        else:
+            return posterior
 
 
 class Independent(TransitionModel):
@@ -360,7 +364,8 @@ class Independent(TransitionModel):
         return prior
 
     def computeBackwardPrior(self, posterior, t):
-        return self.computeForwardPrior(posterior, t - 1)
+        # subsequent data does not contain information about the current parameter values
+        return np.ones(self.study.gridSize)
 
 
 class RegimeSwitch(TransitionModel):
-- 
2.43.0


From 4c84192e257241fcbb70ad845fbced6cd9797ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:10 +0000
Subject: [PATCH 25/64] fix: backward pass refers to the preceding time stamp
 for arbitrarily spaced time stamps

---
 bayesloop/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ef13ac3..b365037 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -463,8 +463,10 @@ class Study(object):
                     self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
                                                 np.prod(self.latticeConstant))  # integration, not only sum
 
-                # compute beta for next iteration
-                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, self.formattedTimestamps[i])
+                # compute beta for next iteration (transition models refer to the time step before t, which is the
+                # preceding time stamp, also if time stamps are not spaced by one)
+                t = self.formattedTimestamps[i-1] + 1 if i > 0 else self.formattedTimestamps[i]
+                beta = self.transitionModel.computeBackwardPrior(beta*likelihood, t)
 
                 # normalize beta (for numerical stability)
                 beta /= np.sum(beta)
-- 
2.43.0


From 96948a6d5d95272eba42d509a1e8c38129727295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:13 +0000
Subject: [PATCH 26/64] fix: change-points and independent observations restore
 any kind of custom prior

---
 bayesloop/transitionModels.py | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 01e8d8c..2d66627 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -298,13 +298,7 @@ class ChangePoint(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t == self.hyperParameterValues[0]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
@@ -351,13 +345,7 @@ class Independent(TransitionModel):
         Returns:
             ndarray: Prior parameter distribution for subsequent time step
         """
-        # check if custom prior is used by observation model
-        if hasattr(self.study.observationModel.prior, '__call__'):
-            prior = self.study.observationModel.prior(*self.study.grid)
-        elif isinstance(self.study.observationModel.prior, np.ndarray):
-            prior = deepcopy(self.study.observationModel.prior)
-        else:
-            prior = np.ones(self.study.gridSize)  # flat prior
+        prior = self.study._computePrior(silent=True)
 
         # normalize prior (necessary in case an improper prior is used)
         prior /= np.sum(prior)
@@ -806,13 +794,7 @@ class SerialTransitionModel(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
         if t in np.array(self.hyperParameterValues)[self.changePointMask]:
-            # check if custom prior is used by observation model
-            if hasattr(self.study.observationModel.prior, '__call__'):
-                prior = self.study.observationModel.prior(*self.study.grid)
-            elif isinstance(self.study.observationModel.prior, np.ndarray):
-                prior = deepcopy(self.study.observationModel.prior)
-            else:
-                prior = np.ones(self.study.gridSize)  # flat prior
+            prior = self.study._computePrior(silent=True)
 
             # normalize prior (necessary in case an improper prior is used)
             prior /= np.sum(prior)
-- 
2.43.0


From 07b7722ff9f7c0552f6c7908688db02c92017e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:16 +0000
Subject: [PATCH 27/64] fix: local evidence of the forward pass factorizes the
 evidence

---
 bayesloop/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b365037..9506aaf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -401,7 +401,9 @@ class Study(object):
 
             # update log-evidence and compute local evidence
             self.logEvidence += np.log(norm)
-            self.localEvidence[i] = norm * np.prod(self.latticeConstant)  # integration yields evidence, not only sum
+            self.localEvidence[i] = norm
+            if i == 0:  # prior is given as a density, integration yields evidence, not only sum
+                self.localEvidence[i] *= np.prod(self.latticeConstant)
 
             # alphas are stored as preliminary posterior distributions
             if not evidenceOnly:
-- 
2.43.0


From 6a00145cdf88cd988ffc7ff681b86641e34215d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 28/64] fix: local evidence of the full fit does not depend on
 the lattice constant

---
 bayesloop/core.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9506aaf..c7785c5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -462,8 +462,7 @@ class Study(object):
 
                 # compute local evidence
                 with np.errstate(invalid='ignore'):
-                    self.localEvidence[i] = 1./(np.sum(self.posteriorSequence[i]/likelihood) *
-                                                np.prod(self.latticeConstant))  # integration, not only sum
+                    self.localEvidence[i] = 1./np.sum(self.posteriorSequence[i]/likelihood)
 
                 # compute beta for next iteration (transition models refer to the time step before t, which is the
                 # preceding time stamp, also if time stamps are not spaced by one)
-- 
2.43.0


From cb7c676ac95e7d2ac0f875e9fed7079eff102fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:22 +0000
Subject: [PATCH 29/64] fix: local evidence of the average model integrates
 over the hyper-prior density

---
 bayesloop/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c7785c5..ff52787 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1411,7 +1411,8 @@ class HyperStudy(Study):
                 print('    + Log10-evidence of average model: {:.5f}'.format(self.logEvidence / np.log(10)))
 
             # compute local evidence of average model
-            self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0)
+            self.localEvidence = np.sum((np.array(self.localEvidenceList).T*self.flatHyperPriorValues).T, axis=0) * \
+                                 np.prod(self.hyperGridConstant)  # hyper-prior is a probability density
 
             if not silent:
                 print('    + Computed local evidence of average model')
-- 
2.43.0


From ce4d72207df2e8f67baea1616682a8bafe1097f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:51 +0000
Subject: [PATCH 30/64] fix: convolution kernels of random walks are updated if
 the parameter grid changes

---
 bayesloop/transitionModels.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index 2d66627..e243033 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -167,8 +167,10 @@ class AlphaStableRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values (or the parameter grid) have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, self.latticeConstant, self.study.gridSize,
+                            self.study.observationModel.parameterNames.index(self.selectedParameter)]
+        if not self.kernelParameters == kernelParameters:
             normedC = []
             for lc in self.latticeConstant:
                 normedC.append(self.hyperParameterValues[0] / lc)
@@ -184,7 +186,7 @@ class AlphaStableRandomWalk(TransitionModel):
                 self.kernel *= self.createKernel(c, a, i+1)
 
             self.kernel = self.kernel.T
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = self.convolve(posterior)
         newPrior /= np.sum(newPrior)
@@ -870,13 +872,14 @@ class BivariateRandomWalk(TransitionModel):
             ndarray: Prior parameter distribution for subsequent time step
         """
 
-        # if hyper-parameter values have changed, a new convolution kernel needs to be created
-        if not self.kernelParameters == self.hyperParameterValues:
+        # if hyper-parameter values (or the parameter grid) have changed, a new convolution kernel needs to be created
+        kernelParameters = [self.hyperParameterValues, self.latticeConstant]
+        if not self.kernelParameters == kernelParameters:
             normedSigma1 = self.hyperParameterValues[0] / self.latticeConstant[0]
             normedSigma2 = self.hyperParameterValues[1] / self.latticeConstant[1]
 
             self.kernel = self.createKernel(normedSigma1, normedSigma2, self.hyperParameterValues[2])
-            self.kernelParameters = deepcopy(self.hyperParameterValues)
+            self.kernelParameters = deepcopy(kernelParameters)
 
         newPrior = convolve2d(posterior, self.kernel, mode='same')
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 6655e20e186a9b7ce4d45bf4e2f153982eac0d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:53 +0000
Subject: [PATCH 31/64] fix: transition model instance can be shared among
 studies

---
 bayesloop/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ff52787..da588a5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -343,6 +343,10 @@ class Study(object):
         """
         self._checkConsistency()
 
+        # transition model instance may have been passed to another study in the meantime
+        self.transitionModel.study = self
+        self.transitionModel.latticeConstant = self.latticeConstant
+
         if not silent:
             print('+ Started new fit:')
 
-- 
2.43.0


From 7b5876c8154265c486561bda9ace767db63d1de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:57 +0000
Subject: [PATCH 32/64] fix: evidence-only fit discards the results of a
 previous fit

---
 bayesloop/core.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index da588a5..54dd254 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -358,10 +358,13 @@ class Study(object):
         # initialize array for posterior distributions
         if not evidenceOnly:
             self.posteriorSequence = np.empty([len(self.formattedData)]+self.gridSize)
+        else:
+            self.posteriorSequence = []  # discard results of previous fit
+        self.posteriorMeanValues = []
 
         # initialize array for computed evidence (marginal likelihood)
         self.logEvidence = 0
-        self.localEvidence = np.empty(len(self.formattedData))
+        self.localEvidence = np.zeros(len(self.formattedData))
 
         # set prior distribution for forward-pass
         alpha = self._computePrior(silent=silent)
-- 
2.43.0


From e876e57f93e34360f05738d3dcf12376150deede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:00 +0000
Subject: [PATCH 33/64] fix: aborted fit does not provide meaningless posterior
 distributions

---
 bayesloop/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 54dd254..15728e7 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -404,6 +404,7 @@ class Study(object):
 
                 self.fitWarningCounter += 1
                 self.logEvidence = -np.inf
+                self.posteriorSequence = []  # no valid results
                 return
 
             # update log-evidence and compute local evidence
@@ -458,6 +459,7 @@ class Study(object):
 
                     self.fitWarningCounter += 1
                     self.logEvidence = -np.inf
+                    self.posteriorSequence = []  # no valid results
                     return
 
                 # re-compute likelihood
-- 
2.43.0


From 148da0a2215889c40b679972440774516890b118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:04 +0000
Subject: [PATCH 34/64] fix: hyper-study with a single combination of
 hyper-parameter values uses these values

---
 bayesloop/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 15728e7..3fcf70e 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1452,8 +1452,15 @@ class HyperStudy(Study):
                 if len(self.hyperGridValues) == 0:
                     print('+ Transition model contains no hyper-parameters, switching to standard fit method.')
 
+            if len(self.hyperGridValues) == 1:
+                self._setAllHyperParameters(self.hyperGridValues[0])
+
             Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
 
+            if len(self.hyperGridValues) == 1:
+                self._setAllHyperParameters(self.flatHyperParameters)  # restore hyper-parameter values
+                self.hyperParameterDistribution = np.ones(1)/np.prod(self.hyperGridConstant)
+
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
         """
         This method is called by the fit method of the HyperStudy class. It creates a copy of the current class
-- 
2.43.0


From a431f9eb93a5461179d896b6e1454399dc54d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:22 +0000
Subject: [PATCH 35/64] fix: hyper-studies report missing data or models as
 ConfigurationError

---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3fcf70e..b095422 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1275,6 +1275,7 @@ class HyperStudy(Study):
             customHyperGrid(bool): If set to true, the method "_createHyperGrid" is not called before starting the fit.
                 This is used by the class "ChangepointStudy", which employs a custom version of "_createHyperGrid".
         """
+        self._checkConsistency()
         self.fitWarningCounter = 0
 
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
@@ -1800,6 +1801,8 @@ class ChangepointStudy(HyperStudy):
             silent(bool): If set to True, reduced output is generated by the fitting method.
             nJobs(int): Number of processes to employ. Multiprocessing is based on the 'pathos' module.
         """
+        self._checkConsistency()
+
         # format data/timestamps once, so number of data segments is known
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
         self.formattedTimestamps = self.rawTimestamps[self.observationModel.segmentLength - 1:]
-- 
2.43.0


From 4974d7b5064bdae0f5978ca7a5fe1dde290b483c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:51 +0000
Subject: [PATCH 36/64] fix: hyper-study restores change-point value 'all'
 after the fit

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index b095422..aacabe1 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1277,6 +1277,7 @@ class HyperStudy(Study):
         """
         self._checkConsistency()
         self.fitWarningCounter = 0
+        hyperParameterBackup = self._unpackAllHyperParameters()  # values as set by the user (including 'all')
 
         # format data/timestamps once, so number of data segments is known and _createGrid() works properly
         self.formattedData = movingWindow(self.rawData, self.observationModel.segmentLength)
@@ -1440,7 +1441,7 @@ class HyperStudy(Study):
             self.localEvidenceList = []
 
             # restore hyper-parameter values (individual values have been set during fitting)
-            self._setAllHyperParameters(self.flatHyperParameters)
+            self._setAllHyperParameters(hyperParameterBackup)
 
             if not silent:
                 print('+ Finished fit.')
@@ -1459,7 +1460,7 @@ class HyperStudy(Study):
             Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
 
             if len(self.hyperGridValues) == 1:
-                self._setAllHyperParameters(self.flatHyperParameters)  # restore hyper-parameter values
+                self._setAllHyperParameters(hyperParameterBackup)  # restore hyper-parameter values
                 self.hyperParameterDistribution = np.ones(1)/np.prod(self.hyperGridConstant)
 
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
-- 
2.43.0


From d8d1946b23dc043cd0a9198784a080f7d0f4b8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:54 +0000
Subject: [PATCH 37/64] fix: interrupted hyper-study fit does not alter the
 hyper-parameter values of the transition model

---
 bayesloop/core.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index aacabe1..39a8a57 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1365,7 +1365,11 @@ class HyperStudy(Study):
                     self._setSelectedHyperParameters(hyperParamValues)
 
                     # call fit method from parent class
-                    Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+                    try:
+                        Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=True)
+                    except:
+                        self._setAllHyperParameters(hyperParameterBackup)  # restore values if fit is interrupted
+                        raise
 
                     self.logEvidenceList.append(self.logEvidence)
                     self.localEvidenceList.append(self.localEvidence)
-- 
2.43.0


From 20d4906ff86d9ba564dd8d9a0a297a57b2c958d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 38/64] fix: OnlineStudy assigns zero probability to
 (hyper-)models that cannot explain the data

---
 bayesloop/core.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 39a8a57..7d4ae85 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2204,20 +2204,25 @@ class OnlineStudy(HyperStudy):
                 self.logEvidenceList[i][j] += np.log(ni)
                 self.hyperParameterDistribution[i][j] = self.logEvidenceList[i][j] + np.log(self.hyperPriorValues[i][j])
 
-                # store parameter posterior
-                self.parameterPosterior[i][j] = alphai/ni
+                # store parameter posterior (all zero if data is impossible given the hyper-parameter values)
+                self.parameterPosterior[i][j] = alphai/ni if ni > 0. else 0.
 
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
             self.transitionModelDistribution[i] = self.hyperLogEvidenceList[i]
-            self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
-                                                       np.log(self.transitionModelPrior[i])
+            if np.isfinite(self.hyperLogEvidenceList[i]):
+                self.localTransitionModelDistribution[i] = self.hyperLogEvidenceList[i] - oldHyperEvidence + \
+                                                           np.log(self.transitionModelPrior[i])
+            else:  # data is impossible given the current transition model
+                self.localTransitionModelDistribution[i] = -np.inf
 
             # normalize hyper-parameter distribution of current transition model
-            self.hyperParameterDistribution[i] -= np.amax(self.hyperParameterDistribution[i])
+            if np.isfinite(self.hyperLogEvidenceList[i]):
+                self.hyperParameterDistribution[i] -= np.amax(self.hyperParameterDistribution[i])
             self.hyperParameterDistribution[i] = np.exp(self.hyperParameterDistribution[i])
-            self.hyperParameterDistribution[i] /= np.sum(self.hyperParameterDistribution[i])
+            if np.isfinite(self.hyperLogEvidenceList[i]):
+                self.hyperParameterDistribution[i] /= np.sum(self.hyperParameterDistribution[i])
             if len(self.hyperGridConstants[i]) > 0:
                 self.hyperParameterDistribution[i] /= np.prod(self.hyperGridConstants[i])
 
-- 
2.43.0


From f98f6c9804982bb16a537cb9895a0118d97f838a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 39/64] fix: parser computes compound distribution of different
 parameters at different time steps

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index dfb3fe8..138f5a4 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -236,7 +236,7 @@ class Parser:
             # compute compound distribution of two (hyper-)parameters
             if (type(a) == Parameter and type(b) == Parameter and (not (a.study is b.study) or
                                                                        (a.study is None and b.study is None) or
-                                                                       (a.name == b.name and not (a.time == b.time)))) or \
+                                                                       not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
                                                                                       (a.study is None and b.study is None))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
-- 
2.43.0


From ae19687af95ef88b2442e07f8dd9dd949b3026aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:09 +0000
Subject: [PATCH 40/64] fix: parser evaluates time stamp t for each study
 individually

---
 bayesloop/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 138f5a4..324e15b 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -284,10 +284,10 @@ class Parser:
                                                          time=study.formattedTimestamps[-1],
                                                          study=study))
         else:
-            # compute index of timestamp
-            timeIndex = list(self.studies[0].formattedTimestamps).index(t)
-
             for study in self.studies:
+                # compute index of timestamp
+                timeIndex = list(study.formattedTimestamps).index(t)
+
                 names = study.observationModel.parameterNames
                 for i, name in enumerate(names):
                     index = study.observationModel.parameterNames.index(name)
@@ -332,7 +332,7 @@ class Parser:
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
-                                timeIndex = list(self.studies[0].formattedTimestamps).index(t)
+                                timeIndex = list(study.formattedTimestamps).index(t)
 
                                 dist = study.hyperParameterSequence[timeIndex][j] / \
                                        np.sum(study.hyperParameterSequence[timeIndex][j])
-- 
2.43.0


From 8596695dc7e8acc7f08f66c540faaa1e25f28637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:13 +0000
Subject: [PATCH 41/64] fix: derived distribution of parser includes the
 largest value

---
 bayesloop/parser.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 324e15b..998975e 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -394,10 +394,7 @@ class Parser:
             dmax = np.nanmax(derivedParameter)
 
             # bin size is chosen as maximal difference between two derived values
-            print(f"dmax {dmax}")
-            print(f"dmin {dmin}")
-            print(np.diff(np.sort(derivedParameter)))
-            nBins = int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter)))))
+            nBins = max(int((dmax-dmin)/(np.nanmax(np.diff(np.sort(derivedParameter))))), 2)  # at least one interval
             bins = np.linspace(dmin, dmax, nBins)
             binnedValues = bins[:-1] + (bins[1]-bins[0])
             binnedProbs = []
@@ -409,7 +406,8 @@ class Parser:
                 it = zip(bins[:-1], bins[1:])
 
             for lower, upper in it:
-                binnedProbs.append(np.sum(derivedParameter.prob[(derivedParameter >= lower) * (derivedParameter < upper)]))
+                mask = (derivedParameter >= lower) * ((derivedParameter < upper) + (upper == bins[-1])*(derivedParameter == upper))
+                binnedProbs.append(np.sum(derivedParameter.prob[mask]))
             binnedProbs = np.array(binnedProbs)
 
             return binnedValues, binnedProbs
-- 
2.43.0


From 3f08b2ba3a91e652a93037a17d9569cbb1afc757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:17 +0000
Subject: [PATCH 42/64] fix: parser handles queries that consist of a single
 (hyper-)parameter

---
 bayesloop/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 998975e..0dc4074 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -385,7 +385,10 @@ class Parser:
 
         # evaluate left side
         parsedString = self.expr.parseString(reducedQuery).asList()[0]
-        derivedParameter = self._evaluate(parsedString)
+        if isinstance(parsedString, str):  # query consists of a single (hyper-)parameter
+            derivedParameter = self._convert(parsedString)
+        else:
+            derivedParameter = self._evaluate(parsedString)
 
         # if no relational operator in query, compute derived distribution
         if len(splitQuery) == 1:
-- 
2.43.0


From d2d97349f5710f3a080abd90fb111fb370482601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:17 +0000
Subject: [PATCH 43/64] fix: transition model distribution returned by
 OnlineStudy does not change with the next step

---
 bayesloop/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 7d4ae85..68a3659 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2435,9 +2435,9 @@ class OnlineStudy(HyperStudy):
             ndarray, ndarray: Arrays of transition model names and normalized probabilities.
         """
         if local:
-            return np.array(self.transitionModelNames), self.localTransitionModelDistribution
+            return np.array(self.transitionModelNames), self.localTransitionModelDistribution.copy()
         else:
-            return np.array(self.transitionModelNames), self.transitionModelDistribution
+            return np.array(self.transitionModelNames), self.transitionModelDistribution.copy()
 
     def getCTMD(self, local=False):
         """
-- 
2.43.0


From c1212fef0a56f8891f81f36b2b06066b2dc5a6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:19 +0000
Subject: [PATCH 44/64] fix: AlphaStableRandomWalk supports two-dimensional
 grids with odd numbers of parameter values

---
 bayesloop/transitionModels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index e243033..eedbd0b 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -229,7 +229,7 @@ class AlphaStableRandomWalk(TransitionModel):
         kernel = np.roll(kernel, int(3*l1/2-1))
 
         if len(gs) == 2:
-            kernel = np.array([kernel]*(3*l2))
+            kernel = np.array([kernel]*(2*int(3*l2/2)))  # number of kernel values along the other axis
 
         if axis == 1:
             return kernel.T
-- 
2.43.0


From 6b166179bd81d67b5b5d51dd9dc4a400b086cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 45/64] fix: OnlineStudy restores the hyper-parameter values of
 the transition models

---
 bayesloop/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 68a3659..3ee5693 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2186,6 +2186,8 @@ class OnlineStudy(HyperStudy):
             if len(hpv) == 0:
                 hpv = [None]
 
+            hyperParameterBackup = self._unpackAllHyperParameters()  # values as set by the user
+
             # loop over all hyper-parameter values to fit
             for j, x in enumerate(hpv):
                 # set current hyper-parameter values
@@ -2207,6 +2209,9 @@ class OnlineStudy(HyperStudy):
                 # store parameter posterior (all zero if data is impossible given the hyper-parameter values)
                 self.parameterPosterior[i][j] = alphai/ni if ni > 0. else 0.
 
+            # restore hyper-parameter values (individual values have been set during fitting)
+            self._setAllHyperParameters(hyperParameterBackup)
+
             # marginalize model evidence wrt hyper-parameters, for all past data points and only for the current one
             oldHyperEvidence = self.hyperLogEvidenceList[i]
             self.hyperLogEvidenceList[i] = logsumexp(self.logEvidenceList[i] + np.log(self.hyperPriorValues[i]))
-- 
2.43.0


From 43a7ba538ca1dd47cbcc711e2de2ba4162104304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:33 +0000
Subject: [PATCH 46/64] fix: hyper-study does not report undefined
 distributions if no combination of values explains the data

---
 bayesloop/core.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 3ee5693..558c21a 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1402,6 +1402,8 @@ class HyperStudy(Study):
 
                 # set self.posteriorSequence to average posterior sequence for plotting reasons
                 self.posteriorSequence = self.averagePosteriorSequence
+                if not np.any(np.isfinite(self.logEvidenceList)):
+                    self.posteriorSequence = []  # no valid results
 
                 if not silent:
                     print('    + Computed average posterior sequence')
@@ -1412,9 +1414,12 @@ class HyperStudy(Study):
 
             # transform hyper-parameter distribution into linear space
             # (we prefer underflows rather than overflows)
-            scaledLogHyperParameterDistribution = logHyperParameterDistribution - np.amax(logHyperParameterDistribution)
-            self.hyperParameterDistribution = np.exp(scaledLogHyperParameterDistribution)
-            self.hyperParameterDistribution /= np.sum(self.hyperParameterDistribution)
+            if np.any(np.isfinite(logHyperParameterDistribution)):
+                scaledLogHyperParameterDistribution = logHyperParameterDistribution - np.amax(logHyperParameterDistribution)
+                self.hyperParameterDistribution = np.exp(scaledLogHyperParameterDistribution)
+                self.hyperParameterDistribution /= np.sum(self.hyperParameterDistribution)
+            else:  # data is impossible for all combinations of hyper-parameter values
+                self.hyperParameterDistribution = np.zeros(len(logHyperParameterDistribution))
             self.hyperParameterDistribution /= np.prod(self.hyperGridConstant)  # probability density
 
             if not silent:
-- 
2.43.0


From fb8183443eaf5acfe763cb3173432497d3d39278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:07 +0000
Subject: [PATCH 47/64] fix: mean values and simulations of parameters that
 were not inferred raise PostProcessingError

---
 bayesloop/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 558c21a..9a3c6aa 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -595,6 +595,10 @@ class Study(object):
             raise NotImplementedError('Method "simulate" is only available for observation models with '
                                       'segment length 1.')
 
+        if len(self.posteriorSequence) == 0:
+            raise PostProcessingError('Cannot simulate data as the posterior sequence has not yet been computed. '
+                                      'Run complete fit.')
+
         # if no time is provided, use time-averaged posterior distribution
         if t is None:
             post = np.sum(self.posteriorSequence, axis=0) / len(self.posteriorSequence)
@@ -871,6 +875,9 @@ class Study(object):
             raise PostProcessingError('Wrong parameter name. Available options: {0}'
                                       .format(self.observationModel.parameterNames))
 
+        if len(self.posteriorMeanValues) == 0:
+            raise PostProcessingError('Posterior mean values have not yet been computed. Run complete fit.')
+
         return self.posteriorMeanValues[paramIndex]
 
     def getParameterDistribution(self, t, name, plot=False, density=True, **kwargs):
-- 
2.43.0


From 43d0cfe7483ab299da4266be4ebc1e6a6d25c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:31 +0000
Subject: [PATCH 48/64] fix: integer-valued transition model prior can be
 normalized

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 9a3c6aa..36d6ca3 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2091,7 +2091,7 @@ class OnlineStudy(HyperStudy):
             raise ConfigurationError('Length of transition model prior ({}) does not fit number of transition models '
                                      '({})'.format(len(transitionModelPrior), len(self.transitionModels)))
 
-        self.transitionModelPrior = np.array(transitionModelPrior)
+        self.transitionModelPrior = np.array(transitionModelPrior, dtype=float)
 
         if not np.sum(transitionModelPrior) == 1.:
             print('+ WARNING: Transition model prior does not sum up to one. Will re-normalize.')
-- 
2.43.0


From 48be15a8a468afcb12f0ed42d4ee20304aa01655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:34 +0000
Subject: [PATCH 49/64] fix: parallel evidence-only hyper-study fit discards
 the results of a previous fit

---
 bayesloop/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 36d6ca3..ffca7cf 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1316,6 +1316,9 @@ class HyperStudy(Study):
             # hyper-parameter values is done, it is transformed back to linear space)
             self.averagePosteriorSequence = np.zeros([len(self.formattedData)]+self.gridSize) - np.inf
 
+        # discard results of previous fit (individual fits may be carried out by other processes)
+        self.posteriorSequence = []
+        self.posteriorMeanValues = []
         self.logEvidenceList = []
         self.localEvidenceList = []
 
-- 
2.43.0


From c4bf103db7ad3c659c0b19289845a804e8819a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:07 +0000
Subject: [PATCH 50/64] fix: NotEqual does not amplify rounding errors of a
 uniform distribution

---
 bayesloop/transitionModels.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index eedbd0b..afc6ca6 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -456,7 +456,9 @@ class NotEqual(TransitionModel):
         newPrior = posterior.copy()
         limit = (10.**self.hyperParameterValues[0])*np.prod(self.latticeConstant)  # convert prob. density to prob.
 
-        newPrior = np.amax(newPrior) - newPrior
+        maxValue = np.amax(newPrior)
+        newPrior = maxValue - newPrior
+        newPrior[newPrior < 1e-12*maxValue] = 0.  # do not mistake rounding errors for differences in probability
         if np.sum(newPrior) > 0.:  # inverse of a uniform distribution is zero everywhere
             newPrior /= np.sum(newPrior)
         newPrior[newPrior < limit] = limit
-- 
2.43.0


From f1369743061482d21a703c26736debb961914aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:58 +0000
Subject: [PATCH 51/64] fix: hyper-parameter distributions of single-valued
 hyper-parameters

---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index ffca7cf..c317446 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1607,10 +1607,10 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
-        x = self.flatHyperParameters[paramIndex]
+        x = np.atleast_1d(self.flatHyperParameters[paramIndex])
         if plot:
             # check if categorical
             if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
@@ -1683,10 +1683,10 @@ class HyperStudy(Study):
                 hyperGridSteps.append(1)
 
         distribution = self.hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution *= np.prod(self.hyperGridConstant)  # convert to probability (from density)
 
-        x, y = [self.flatHyperParameters[i] for i in paramIndices]
+        x, y = [np.atleast_1d(self.flatHyperParameters[i]) for i in paramIndices]
         if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
             x2 = np.tile(np.arange(len(x)), (len(y), 1)).T
         else:
-- 
2.43.0


From 334857b2584fe195f752cdf03848af5d128fb869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:58 +0000
Subject: [PATCH 52/64] fix: parameter distributions of studies with a single
 time step

---
 bayesloop/core.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c317446..2fb4108 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -971,7 +971,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -995,8 +995,7 @@ class Study(object):
 
         x = self.marginalGrid[paramIndex]
         dx = self.latticeConstant[paramIndex]
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize))
 
         if density:
             marginalPosteriorSequence /= dx
@@ -1040,7 +1039,7 @@ class Study(object):
                                       'Run complete fit.')
 
         dt = self.formattedTimestamps[1:] - self.formattedTimestamps[:-1]
-        if not np.all(dt == dt[0]):
+        if not np.all(dt == dt[:1]):
             print('! WARNING: Time stamps are not equally spaced. This may result in false plotting of parameter '
                   'distributions.')
 
@@ -1061,8 +1060,7 @@ class Study(object):
         except ValueError:
             raise PostProcessingError('Wrong parameter index to plot. Available indices: {}'
                                       .format(np.array(axesToMarginalize)-1))
-        marginalPosteriorSequence = np.squeeze(
-            np.apply_over_axes(np.sum, self.posteriorSequence, axesToMarginalize)).copy()
+        marginalPosteriorSequence = np.sum(self.posteriorSequence, axis=tuple(axesToMarginalize))
 
         # clean up very small probability values, as they may create image artefacts
         pmax = np.amax(marginalPosteriorSequence)
-- 
2.43.0


From be583cd6eb1e3f07bb6da7e934fd3d807e940edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:57 +0000
Subject: [PATCH 53/64] fix: duration distribution ignores combinations that
 are not ordered

---
 bayesloop/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 2fb4108..1c5162f 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1947,7 +1947,7 @@ class ChangepointStudy(HyperStudy):
 
         # loop over all hyper-grid points and collect probabilities for different durations
         for i, values in enumerate(self.allHyperGridValues[:, paramIndices]):
-            if values[1] > values[0]:
+            if self.mask[i] and values[1] > values[0]:
                 # get matching index in duration (rounding needed because of finite precision)
                 idx = np.where(duration.round(10) == (values[1]-values[0]).round(10))[0][0]
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
-- 
2.43.0


From 02f9593cb3528ba5ae736899f7dab80df464bb29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:23 +0000
Subject: [PATCH 54/64] fix: deterministic transition model yields no negative
 probabilities

---
 bayesloop/transitionModels.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/transitionModels.py b/bayesloop/transitionModels.py
index afc6ca6..1bacf25 100644
--- a/bayesloop/transitionModels.py
+++ b/bayesloop/transitionModels.py
@@ -573,6 +573,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # interpolation may overshoot
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
@@ -598,6 +599,7 @@ class Deterministic(TransitionModel):
 
         # shift interpolated version of distribution
         newPrior = shift(posterior, dAll, order=3, mode='nearest')
+        newPrior[newPrior < 0.] = 0.  # interpolation may overshoot
 
         # transformation above may violate proper normalization; re-normalization needed
         newPrior /= np.sum(newPrior)
-- 
2.43.0


From 7e57da13cbfed5251c9e77721dcad8e31a0d0af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:19 +0000
Subject: [PATCH 55/64] fix: parser does not mistake parameter names for
 functions

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 0dc4074..55ab5b2 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -109,7 +109,7 @@ class Parser:
                 pass
 
         # initialize operators for parsing
-        funcop = pp.oneOf(self.functions)
+        funcop = pp.oneOf(self.functions, asKeyword=True)
         atop = pp.Literal('@')
         expop = pp.Literal('^')
         signop = pp.oneOf('+ -')
-- 
2.43.0


From b55db52cc3446738b1cbd020645d0b5936f81cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:19 +0000
Subject: [PATCH 56/64] fix: parser evaluates queries that consist of a single
 function or sign

---
 bayesloop/parser.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 55ab5b2..babedcb 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -145,21 +145,21 @@ class Parser:
                 else:
                     parsedString = [parsedString[:3]] + parsedString[3:]
 
-        result = []
-        for e in parsedString:
-            if isinstance(e, list):
-                # unary minus: "-4" --> "(-1)*4"
-                if len(e) == 2 and e[0] == '-':
-                    e = ['-1', '*', e[1]]
+        # unary minus: "-4" --> "(-1)*4"
+        if len(parsedString) == 2 and parsedString[0] == '-':
+            parsedString = ['-1', '*', parsedString[1]]
 
-                # unary plus: "+4" --> "1*4"
-                elif len(e) == 2 and e[0] == '+':
-                    e = ['1', '*', e[1]]
+        # unary plus: "+4" --> "1*4"
+        elif len(parsedString) == 2 and parsedString[0] == '+':
+            parsedString = ['1', '*', parsedString[1]]
 
-                # numpy function
-                elif len(e) == 2 and isinstance(e[0], str):
-                    e = [e[0], 'func', e[1]]
+        # numpy function
+        elif len(parsedString) == 2 and isinstance(parsedString[0], str):
+            parsedString = [parsedString[0], 'func', parsedString[1]]
 
+        result = []
+        for e in parsedString:
+            if isinstance(e, list):
                 # recursion
                 result.append(self._evaluate(e))
             else:
-- 
2.43.0


From 680b5ef55a18bb6bfcbebe7cf5f5e8aa5328a490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:19 +0000
Subject: [PATCH 57/64] fix: parser rejects queries with unknown names

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index babedcb..7e051d0 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -384,7 +384,7 @@ class Parser:
                                      'or none to obtain derived distribution.')
 
         # evaluate left side
-        parsedString = self.expr.parseString(reducedQuery).asList()[0]
+        parsedString = self.expr.parseString(reducedQuery, parseAll=True).asList()[0]
         if isinstance(parsedString, str):  # query consists of a single (hyper-)parameter
             derivedParameter = self._convert(parsedString)
         else:
-- 
2.43.0


From cb116c1ec043a9a362c3acd57ab8553abc669aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:07 +0000
Subject: [PATCH 58/64] fix: parser evaluates both sides of a comparison
 separately

---
 bayesloop/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 7e051d0..2a26636 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -378,7 +378,7 @@ class Parser:
         elif len(splitQuery) == 2:
             # last arithmetic may be omitted in some cases if right side is appended to the left, needs to come first
             #reducedQuery = '-'.join(splitQuery)
-            reducedQuery = '-1*('+splitQuery[1]+')+'+splitQuery[0]
+            reducedQuery = '-1*('+splitQuery[1]+')+('+splitQuery[0]+')'
         else:
             raise ConfigurationError('Use exactly one operator out of (<, >, <=, >=, ==) to obtain probability value, '
                                      'or none to obtain derived distribution.')
-- 
2.43.0


From 7bbca72c36d2e1e14e520c428ec084f39da48b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:35 +0000
Subject: [PATCH 59/64] fix: parser combines hyper-parameters of different time
 steps or transition models

---
 bayesloop/parser.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bayesloop/parser.py b/bayesloop/parser.py
index 2a26636..1c2dd63 100644
--- a/bayesloop/parser.py
+++ b/bayesloop/parser.py
@@ -20,12 +20,13 @@ class Parameter(np.ndarray):
     Behaves like a Numpy array, but features additional attributes. This allows us to apply arithmetic operations to
     the grid of parameter values while keeping track of the corresponding probability grid and the parameter's origin.
     """
-    def __new__(cls, values, prob, name=None, time=None, study=None):
+    def __new__(cls, values, prob, name=None, time=None, study=None, model=None):
         obj = np.asarray(values).view(cls)
         obj.prob = prob
         obj.name = name
         obj.time = time
         obj.study = study
+        obj.model = model
         return obj
 
     def __array_finalize__(self, obj):
@@ -36,6 +37,7 @@ class Parameter(np.ndarray):
         self.name = getattr(obj, 'name', None)
         self.time = getattr(obj, 'time', None)
         self.study = getattr(obj, 'study', None)
+        self.model = getattr(obj, 'model', None)
 
 
 class HyperParameter(Parameter):
@@ -238,7 +240,9 @@ class Parser:
                                                                        (a.study is None and b.study is None) or
                                                                        not (a.time == b.time))) or \
                     (type(a) == HyperParameter and type(b) == HyperParameter and (not (a.study is b.study) or
-                                                                                      (a.study is None and b.study is None))) or \
+                                                                                      (a.study is None and b.study is None) or
+                                                                                      not (a.time == b.time) or
+                                                                                      not (a.model == b.model))) or \
                     ((type(a) == HyperParameter) and (type(b) == Parameter) or
                              (type(b) == HyperParameter) and (type(a) == Parameter)):
 
@@ -321,14 +325,16 @@ class Parser:
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       hps,
                                                                       name=name,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=j))
                             else:
                                 dist = study.hyperParameterDistribution[j]/np.sum(study.hyperParameterDistribution[j])
                                 self.parameters.append(HyperParameter(study.hyperParameterValues[j][:, index],
                                                                       dist,
                                                                       name=name,
                                                                       time=study.formattedTimestamps[-1],
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=j))
                         else:
                             if study.storeHistory:
                                 # compute index of timestamp
@@ -341,7 +347,8 @@ class Parser:
                                                                       dist,
                                                                       name=name,
                                                                       time=t,
-                                                                      study=study))
+                                                                      study=study,
+                                                                      model=j))
                             else:
                                 raise ConfigurationError('OnlineStudy instance is not configured to store history, '
                                                          'cannot access t={}.'.format(t))
-- 
2.43.0


From 324b542d7d1bed23d35766e37fe5257a9dbb5e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:11:10 +0000
Subject: [PATCH 60/64] fix: plots of single-valued hyper-parameters in online
 studies

---
 bayesloop/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 1c5162f..c14d65c 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -2757,10 +2757,10 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])  # convert to probability (from density)
 
-        x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
+        x = np.atleast_1d(self.allFlatHyperParameterValues[tmIndex][hpIndex])
         if plot:
             # check if categorical
             if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
@@ -2816,10 +2816,10 @@ class OnlineStudy(HyperStudy):
         # reshape hyper-parameter grid for easy marginalization
         hyperGridSteps = [len(x) if isinstance(x, Iterable) else 1 for x in self.allFlatHyperParameterValues[tmIndex]]
         distribution = hyperParameterDistribution.reshape(hyperGridSteps, order='C')
-        marginalDistribution = np.squeeze(np.apply_over_axes(np.sum, distribution, axesToMarginalize)).copy()
+        marginalDistribution = np.sum(distribution, axis=tuple(axesToMarginalize))
         marginalDistribution *= np.prod(self.hyperGridConstants[tmIndex])
 
-        x = self.allFlatHyperParameterValues[tmIndex][hpIndex]
+        x = np.atleast_1d(self.allFlatHyperParameterValues[tmIndex][hpIndex])
         if plot:
             # check if categorical
             if np.any(np.abs(np.diff(np.diff(x))) > 10 ** -10):
-- 
2.43.0


From 24cf29eb3c579003789a548b6276c97cfbf3435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:25 +0000
Subject: [PATCH 61/64] fix: hyper-studies of impossible data report neither
 mean values nor undefined durations

---
 bayesloop/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index c14d65c..5d23bcd 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1446,7 +1446,7 @@ class HyperStudy(Study):
                 print('    + Computed local evidence of average model')
 
             # compute posterior mean values
-            if not evidenceOnly:
+            if not evidenceOnly and len(self.posteriorSequence) > 0:
                 self.posteriorMeanValues = np.empty([len(self.grid), len(self.posteriorSequence)])
                 for i in range(len(self.grid)):
                     self.posteriorMeanValues[i] = np.array([np.sum(p*self.grid[i]) for p in self.posteriorSequence])
@@ -1953,7 +1953,8 @@ class ChangepointStudy(HyperStudy):
                 durationDistribution[idx] += self.hyperParameterDistribution[i]
 
         # properly normalize duration distribution
-        durationDistribution /= np.sum(durationDistribution)
+        if np.sum(durationDistribution) > 0.:
+            durationDistribution /= np.sum(durationDistribution)
 
         if plot:
             plt.bar(duration, durationDistribution, align='center', width=duration[0], **kwargs)
-- 
2.43.0


From 68f3b2f4aa82669d0bee30630a2199d7faef5372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:03 +0000
Subject: [PATCH 62/64] fix: change-point study rejects change-point values
 that cannot be ordered

---
 bayesloop/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 5d23bcd..6e0f7ae 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1869,6 +1869,8 @@ class ChangepointStudy(HyperStudy):
         self.mask = np.array(
             [all(x[i] < x[i + 1] for i in range(len(points) - 1)) for x in maskedHyperGridValues],
             dtype=bool)
+        if not np.any(self.mask):
+            raise ConfigurationError('No combination of change-/break-point values is in ascending order.')
         self.hyperGridValues = self.allHyperGridValues[self.mask]
         self.flatHyperPriorValues = self.allHyperPriorValues[self.mask]
 
-- 
2.43.0


From 05db3285e8f01e6710590d482c317ea9f7896898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:32:21 +0000
Subject: [PATCH 63/64] fix: duration distribution without results raises
 PostProcessingError

---
 bayesloop/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 6e0f7ae..41ae37d 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1936,6 +1936,8 @@ class ChangepointStudy(HyperStudy):
             raise PostProcessingError('A list of exactly two hyper-parameters has to be provided.')
         elif not len(names) == 2:
             raise PostProcessingError('A list of exactly two hyper-parameters has to be provided.')
+        if len(self.hyperGridValues) == 0:
+            raise PostProcessingError('No change-/break-points have been fitted. Run fit first.')
         paramIndices = [self._getHyperParameterIndex(self.transitionModel, n) for n in names]
 
         # check if parameter indices are in ascending order (so axes are labeled correctly)
-- 
2.43.0


From 7c79820cbf6e35c4b59e6a9f107d046f3ef788b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:40 +0000
Subject: [PATCH 64/64] fix: interrupted hyper-study fit of a single
 combination does not alter the hyper-parameter values

---
 bayesloop/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayesloop/core.py b/bayesloop/core.py
index 41ae37d..ce75df5 100644
--- a/bayesloop/core.py
+++ b/bayesloop/core.py
@@ -1474,10 +1474,12 @@ class HyperStudy(Study):
             if len(self.hyperGridValues) == 1:
                 self._setAllHyperParameters(self.hyperGridValues[0])
 
-            Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
+            try:
+                Study.fit(self, forwardOnly=forwardOnly, evidenceOnly=evidenceOnly, silent=silent)
+            finally:
+                self._setAllHyperParameters(hyperParameterBackup)  # restore hyper-parameter values
 
             if len(self.hyperGridValues) == 1:
-                self._setAllHyperParameters(hyperParameterBackup)  # restore hyper-parameter values
                 self.hyperParameterDistribution = np.ones(1)/np.prod(self.hyperGridConstant)
 
     def _parallelFit(self, idx, nJobs, forwardOnly, evidenceOnly, silent):
-- 
2.43.0

